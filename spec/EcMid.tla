-------------------------------- MODULE EcMid --------------------------------
(* Written by tools/midpoints.py: x coordinates of points for which an           *)
(* intermediate of the curve equation has runs of all-one or all-zero words.      *)
MidX ==
  [p256 |-> [sq |-> <<"ea631b8bcd864dfb929fff6947240a5da05900d843a10de3b641f578d9ca3491", "49cd557ab88e6daf66f236a7740deda0982d6c2b59131b0462ae67415e59b79a", "4098a04d999b27d7f869b42f66ad89e02fd511c6dc83b9b7e25f0437395f352", "73a0b7b24fa997ddb5299ae2fa9daae8dfd5c6ef15fee187a8080a7944117ef3", "a30e8c712ffb6fbe0ecffde9325d44ea8735b86ecde38e3f13336fa059635cfd", "5f04f1a90c3368ba43c2c55cca3df604b4bde1b5b4f7995fe056191927633d72", "22fa9e545525411ffd0418ab1355654974ba71df986a2505da06e2a4c7206549", "5ccd8c8c0f9e19bd182848fcce3e717e1b91e8f6b34b8477646ce8ff9dbe0392", "dee6f7c3b2511798ae70fbc4f91af841151c765ec1926878294964eb14e7c55c", "51a3f86009e412aabbf0cb3272d6993561c72453d3018a3e9c0a6c003918854f", "e54da3b4d7602c1eaa5961e54ebd6428e5d1a69cf0eeec8e81e90f4243df9285", "cd7f1b3ec176175963da3c382bc88517524a78070cafb09721b9c8dbe64eec63", "aa761573ed1d1255b6f4858f52b959ca41a8f02bde631a5ec78c9be8e27522f9", "4eced3b54796ab9e4bcd2fb24f3c77a1e3a68bcf8698e3c9ca17bd1bb6253662", "d571224f2681fd478cc89ec655569421731013dde2b6b9426d3f6a5ffa8cb14f", "ca643bb5c6d1e6d3ecb703637a879799a074f22a1f965b7553b54e240da6233e", "3f8a982a98216c11a39e482667e3007a5f589a36f3420d355de03dc106f9246a", "79b0f3599355747ac91d9fe49068092a1f9741da877a15434499387929413d84", "a21d82f30a19c10fc638c31e6ff5a76660ca647caec99d738da48646516429bc", "845a16106bca26ab8d5f9a134b9e18cd8c0f1b9e7382169d061433094c87e2bf", "439105d57d6cfcfc05d4a94415bfa1d4bd5d27c6df0b9de7414adac4bc8beeff", "4448e77f5e4417badbc9bab947b868615f0c41522b2d07ff4deca4e873f44772", "d3f8db01d15300a7da74088650b6962d56a9e78879aaae20c8f67b72719c0428", "3f47fe7c1dbcc0ebbba5cd0532f488727c5b06506c81760e9d78304f72f7dae9", "f987ca645eb3f6ecb92b77a44d652ba3f6311b77341e32e010414a250292785d", "712c0176f16e3f2efc816b1264e8981fb87d1437b494499de9628c3cd8a1924b", "73763e414a5734e5d61bc6f1cad89066f9f008d4d40566070694d8b1c2bfa049">>,
     ad |-> <<"983eb3dbe64083b76bddc370a84168383804ea5c26fa57490007050a7dcc6885", "42c87a8832bd82a26259e7b6d64de2a5436cc6f27f3fac8a56e79001f2bffbf", "6c8e59439db8b3bd2f9e6d08a3bea38f5f3039075d6a9b8fb2590d8f4eb74561", "2e4916685ed80d900fa3a2a777c258b354c704165892e628f3b7ca53eefceea7", "804726215af08851ce7835fa58f80982736226e846a4e10bd98e0898baa474d2", "156cb38ed3ccd1bdd49e36ce410209c77cf7e8aa28069169637d41e48f311c3", "8bba60a8865167eb199c835673b540c882f7c5338f572afa657bc0aa4636d6a6", "1d26064e8069eb10058137c37837c67a99b76d77a58556733335931d2fdb3271", "b24d3eaf91df464ea08091dade633b13fdf47814afba40992fd44573b5fac0ec", "464a3b913ace4845958dcba3bfe1fbb10502605b4e4b9bb52e96bcb1e177f7cd", "2fb0f732b69996b88cd82d1ed4795e967a6e6da96485fcf1b8d8e51818755506", "d23691cc2dec8ff5c055ec24f71dada8423c14929d62cc105b1aabaceda8ce9d", "ea4a5c458ebc041f376a46828536ea02a12a80d16d70f6bdaf0f4193d13274f5", "7817ad2bc3fdcbd858d1f36ad4cfb793b0f216ae9dad5efa008f5eacecc8d4b2", "88ea5893da9ec97be407edfa7a702326f90180be11b85323594ff7a27984cb31">>,
     mu |-> <<"d3d9367614b4ca32110e29f32b989f516385cb57d10fbc5035d3f23c2af932bd", "c5b46b41ed04ff092b84f92ff810d54d1c8d3ac16fbeaff5963e442fe3576f23", "bea117c057c72ffdfbd6f05795c8780643e2f29562fda197fc3e5a91312652b9", "d20194ebb71e93afad970ab51df194e5bf6307969db67cd100a266f7aeb72a5b", "e98728a95e0d17b742a8fafa6fe92f7d0c50067fc2c244409794bcdcbd7eabce", "26295d3e51c02102d605f15709efdd3d11149988b31529a3c007210414d3f797", "56c78e5b17004b752dfe4f7c51612e664f7d7785c4889a5384c759001e480490", "ecabb62e4103e0510dc5702c97e5266bb07ab92399482c46c5fc539b3da86f12", "a564f50ab8d220edc505aafb080a24e7beacfbb4350c0dc522ec6d79156fecec", "3f7fe8a9a35109b04c71187f521904530b745489c24f92d8d7c77a730206433b", "6289d57e68ae2b584c15d689012b2bbe500572329c10c3152d5b596a20e92907", "5b703b07c5bc87c0eb92d900377bc7c7bb25031c265a888fb637646d2eb3e9", "d81039e43ce2a0dc2560b32b6865a7ab885cec868a17d70a5497ebb00f524193", "b668ef2f8c8a0e0d78cdab33e3208a9880096e33abd17d1c3772f53c119fb814", "71d471d666e44e81e734767684572b3b1d748ec86eb4b239a755ee59a8792e6", "7ea2d44250ffccbdc6982ef81681eb857e75f461ab208858404ab3903c8c87ba", "5b0ba7f4f0a5442ee19f3c1249d2eadc90fe1250945f8e791b0c433a1dc828ae", "6ad14aa69a703835132f8e68c30297d6aff874dc745742dcf97ba64ed3d12407", "73b229179096a86fce80af67cef0e99842c7a31b7ba4074e650109bf189a30a", "997cd44456dae4da6dab0390fcc5032cd72b18b0e4ed2386344996dac5080e48", "db1df0f5ce7b8deb340eaf406f561c04ab2276bacaba33c9acb59d1f0ef625ce", "7930e98dccf495ff02d49e0ba2088e942c001885cca6816754256b0737dc885c", "10d9c222a3215f0323db9fbbe96182de10023f370e795efc01011e63f26f3503", "51ad6fc3748dc7a209a752c6ca143229ac077c9600acaab3d81e9974d491833b", "dc0178e8a8c5e2f26a148e36d6a11e3ff760d283685f5ab412484322c607d54e", "23709340d1a3d2843f496a92a14ac972d029b58f6a1f2228c8e8e0ae404e95f7", "85dfb57ef5e6286da52f3c924cad9b49f2b0718523541bdd917da62f4899d249">>,
     cu |-> <<"48354a38f80788645e525aa501e10250e5f4ae48ce89843aa1020a1f4b7d793b", "cba790a643b95ba523db9741840aaf235f590cc271286d3304e0b71130712522", "49fbce91c75c99fc1dbb9632a3068f9866a2ee817e84e0800cc34daa1db9437", "52fa9eb40487ad1825eb30b88defd9ad47d84cf4c78ea74b4f313ba1fc5dad08", "1f3f6d1b06cf8f8107008ef4b06a5689f0742056d1bb95c1118e7a9d4bfa584d", "20dfae1c75ef2a9f244ab791d2fb63641c195b3227f1078575a81778d063b7f0", "1bef46f2a1c2c25e5517eded1e7309cfedaa42a5e83c5ccd8206db7adc87f006", "5dc6782fe68a9adee220294d37837ad7d2387bd7a73ad98eb826119cf0bdf322", "8266a9007a333c086ae95911690ef0fdc3378e37e73ff9ef22d96725892bc1c4", "b9b66988e0d95c497783e1b2e0ce48d5b0971530d83788e6406641a601e9bbc0", "2bc263e28e05d1b2da37c1c964183e3f12cd7966e64e7dfc0802147ab08e0f86", "f03a40f8bf2b98caa7b972c168a45cba604c3b769ac0284c2c067f75a270deb7", "a6c5108076f7a9ef6cb4aaa966876de6325818416ab52916af3d296818bb0ccd", "d1ec4e5bd64ef848c64ad8a505020a80a60df26cd0acd8ffdfc44be88fd21e44", "90a9958093a9b1b65d9c4529aae109b6cde274ff67be5c568849f12c0c55f3dc", "1c1eb26206b3dd0807d78119a72ad96a9cd895c5bea6d4ba71eb2cf26e7eac15", "411d6f77bab9cb5a9a1859ecd779d2a71d5178f946189af700071554c029f1f6", "9afbc7d66f16fa9c665f95fe457e598613ca3c9ba8ec6e3bafcf9e11af200f42", "10ace3316db5dba536ae83b2c176d39346621267ae442e25406cfb1a6db69bd4", "c6bb92280281b1e945ed24ceee5eedeef3e29b47c0ab9d8dccb2396b857d03", "9f475b4097e4e6564687e152bcc5456654b29ed79fc35c69e52c25885e339973", "48b72e141a26d749cf6c21a573bfc425eeb993d92505cec440e67625bcba852a", "f9bd7a78ce796b23f59bafc56f96092c9155ec44c6a8c7b7449c5521cdbca077", "40a099724ac1ac9b7a8c0286475ce00d3e4306a5b8e490c9b3f9ccabe00770ea", "2789cdd1bd815cc7f2f408025a3a61b1a35689991f72106631b18c1388fd78bd", "c85fbf1c8edfaeb82d857d4412f886408e9559ba9461cb3e9eb591b918df94cb", "e65a255c4c8564b87df2204ee1c52f32cb026e3972ad51d5f2873d91ec035b80">>,
     yy |-> <<"52c4cef06574a8fdbfe8a2f0d46083c8135cbe7a80faa7b0025afba29fb1d541", "510b385856a118a07504d2c3cff376bd53cab73b299f3f8860206320ea822bb5", "db11d593026262c1eaaab95b60fba82b209776192b8eb026c09f28be0cb63314", "217da814753b8f3d258ade5a8ef42e6de3401b5540f2e76684f38b1802246c68", "740142c5e35bc81a110f993cfb75862109f3aab804ed8752d0d887c336e62238", "e730097aa1276be235f1df094f58e5f63e7ad9d5a7f5bff875e0416b512b3ab4", "7728ba075251d016d0d98bbc1b3c424e7f44c9dfa1a592ae93ae4bef8bec869b", "dd1de3266e9bb4e977f1913c65df69c180effd05dc33a89241927f6fc92cb481", "1c11c8aa68daeb74a2db06b33f3652162e8e6b72fc9cbf7667c5fd1427636058", "4a807a2e3b0913b0bdbf23c13af27e400263fdc7233286b099a6407a3330d304", "1e93a5ee94e0a5e9277e401ee8a02d2027949688e407cb7be0744652fb7c4b8b", "270d5978c3d248548c5c6dec3eb5b2dc77a333d53df68cae5830997636471b5f", "5067749214721efd9cb9f1bc319db78a135bd6e60b29d9155be9d7118204b46f", "16279b2affe23f73605753bceb90f4e5f9cb6b2500b30b638f0c90f88cf6a6b0", "511025debe59a73d2eb83b92cc7a407d04803d5402e134e790f156b74fc927c9", "53dc37b320aada1bd4731bde1217b96e33e3878b9fa5d0180fd08e129db6fa", "694f0d0c8cfc9ab03c95ea6555d3b2cf5c1814d2882aa5e59e99d85af4c18715", "3aa30313f573ffa5e7de786574f646f336272055fe1b15597b7f4f627932af78", "f7fe4737ba28e97bcadb807364c129a3ec2dc5ab62c723640a4d2cca7e8c536c", "335d301f0027fe2f353e761fac987a588d9f679b32210ee68220a451e85983cb", "997650d77cb9cde3bd08e7c4b1f3e9a29b598b401a0bbf87c9492b58bd190080", "67b5249aa1ad7c8690ba450e0a16c44ff257b129d6280dbde69927c868c8de7c", "5627e9d29597eaa2fa7aa28552256e0f054974f91ed258c7c68ae0e3aa7c73f4", "7fb1b94a2e58909363b356a7fa464bb39d97bbab7ead2a7d283db6313e6facdf", "5b356bb76d345db1b3bc0fcff24005ca4b7aaec450f34cf885f98074de456391", "4d3ba1b366e708a7709bd73d70b6baef2076b632dbfe2f6bf3b723f77b2f53d9", "6f8629454f72e0183e23a29ce0bb9e395361b544a01cf9e6d9589919dfdb312e", "bcdbabda5d00825cbbc986828f215afff39c4bb1ce2343c60b0d0961ea00d2ab", "3ea4264c2ca994d27e4f3d6c114f6e83c2bb1b00a720982c88910b4da5231e75", "a3fb84552909581993b3c66d00363bba76d26a2d62ef301c69d1777260e878b9">>,
     xx |-> <<"48b7b64ee14cf53c18085ed04a4a878c04df81b5d5ad814cb6aa109a91d54cb3", "80961b858e04c20515b6f63dfcb8a6659deffdf90311f9201df8810e206bdb93", "d0768ee5ba8b0ebca853da5eba0e1526d0f3887c6261ef858b019da262dee91a", "46aeb7a5ecded53581caa9d9f0759b184317f1c3724044f2338d8cdb6ea97f0f", "12a2233e3ca0459cc35fba634f4268db0000000012a2233e4f4268db00000000", "18259e723c0e5c10c3f1a3ef5433fa830000000018259e725433fa8300000000", "1172c1a0149cf392713277fb9c0baa54caedfba5cc543188d4f308a258bff9af", "16ea770e599e5af665dc75dde0dffd718c19370c4a4c10d6e398f021454b77aa", "d540629b4783de5eb87c21a25de8ff47dfab5e1af59504827eb91bafdfab5e1a", "c3f32a4b94199c4d6be663b3a47320f2b51f94ba0ed39593a5f91005b51f94b9", "a989c5d4e2d40b8f1d2bf471c43a28a78e52916f1b3734678a6911598e52916e", "da61f28e3f659bf1c09a640fcd6a6b66d940ea5a012108375a4e32a6d940ea59", "8c397931133a00f9319070c06f20f6f9981e4efb7db00da8d6ecc2bae3ac7ac", "cdbd38368cedb900e0819a31e0a75a7f35c32bb972d8b2e29c66ef7f76754a62", "e8dfb5319627050461f98300e4c90ebc465e61ce92c2636d90e9c50f65443760", "71adb9f9ca85b1cc684760a55c3e97f4e8257c52ef22628a646f407546c4a988", "a3450162c4f7586a5ddf85854bc44c4c6b5bc9ef4534cbe382ea2e0f70656379", "5e6bcff01609997d3afe3f4adf53b5d3b0e45fa2f28e440c977182a5a28128fc", "9ac38238864c17304da8de423a1c311f883c94dd67675512416d53b854e067b5", "d14711f7edb395561b6206645e5284ef2b2dc211b003f6e988ab3bb809eaa700", "85dc3078474077e28542753cc8e4e2e40437c5764e275821cd1ca859cc82ed1e", "d876041e7573f1cbbea21873d071b7437d783ea68f13cfb84de9f5e934160a3d", "b17e0242844e848f7bb17b7135cc86d1ffffffffb17e024435cc86d0ffffffff", "25a9ce8cf18cfcb60e73034a1736cb42ffffffff25a9ce8e1736cb41ffffffff", "f5d6f1d2803d2ffb4baf05889bbb6ec76de9d84e53d94f08e9172f4d800b7291", "5b91061001bcd548dbed5ccb5b7847eb659b81e5d39fb63de7656f971b1e7ac6", "6f7d0d6b6ee6496f9119b6907fe32ac60fe3fdff5f990f6c3146fcb00fe3fdff", "e2259ce2027dee79fd821186351cd3f2cb5edbdd16c6c10550f4f865cb5edbdb", "8a74fd0eda25c295274c1cf1054dc632ff2ca4958e2c1785a52d715782ce7250", "b8d21680ec831d7515b10e21eafa500b7dc7bb163f72b298ae6727373e75d904">>,
     xp |-> <<"19eef7608ab521c9719eddce64bd4e9a02e0d737e536130b95ca3286ce27f2e2", "29d5351681d75792518476ee47e4ce0e2a0bb49e5affa919ea16288b5b3628a1", "ca5482eef698bcefa3e214b38381204b3d6c1f94276334fec0ed3fde9a7ad1a1", "254054e2b405c5f5def4fde672ec18d9665a01ff51e116bfd9461ad892fac3dc", "dd397fcd67fdb37b98024c854537334900000000dd397fce45373348ffffffff", "a493897b9730ac0c68cf53f43bc4358800000000a493897c3bc43587ffffffff", "814fe7d4146b971c183e583d8d56a30d9879650a15807224ed0a70a4f5840ff1", "9e38f1ec7f99e81b8a32b11c1a989a32937ef08f14869a95cf7bfb6278acd94d", "72cad48ec4ad4d153b52b2ebf06875d8e277fc6d9052d8238bd0c67ae277fc6d", "f47b9d6f034173e0fcbe8c2795e2d78e5223c782a257d5fd862c654e5223c78", "46cae95ba66da3b859925c480bec2506d7e8ae976ee23ac502886b90d7e8ae96", "85c18e52999ea56166615a9faa1907ca04f745c480ca489039c921a404f745c3", "b39a0786a616a4b7461ddbeb83b8ba5f462cc02b45d648a0f3ed88aa6eecacdb", "19aecd65230cac34bd3da3db288ced16eb495c77eefa110cffa7bd0ba8ea979b", "b8c9d218519609e87dc44ef7c4929faff5dcb14e61a1d28a74a214ac6f77fc33", "5d2da35ecd89a4d76b85c1092eb5470a09cc235ac5804bc53c7f693751fe8d14", "213bcdd11e2487dff00766db844c5fa40f3702ac29bfb39f435586c649971356", "ff202aa9db591f465c24c3c642508a593a0bb1fb4b835c4ac5cc9a8726a3dc62", "c90042d62c557e0e640cfdcc018b4244ecab4b371ad8a61b40155ada3e83ae78", "f06645b583ca3c77fadd73719758aa1601c84832775ed3ed8f07cbc788c0d65", "5e27cd2bd04431fd98dc11b03b01bed9f36a404ed3ddd08b2e6bff28692043ac", "f4e4b97b84a7073e7e1586b7ce21e501ab69dbb84c376bba798bc0b902bc8df3", "d8676441e15df2381ea20dc8b9c55679ffffffffd8676443b9c55678fffffffe", "f41bb1762f6b9591d0946a6f23874707fffffffff41bb17823874706fffffffe", "7a56ac2bb0d2661d77d5ba6bfffaafcf4ffec8545300046148753cd454fcc1b1", "d561085bcc3a782f438e8784da047cb09bfe2b4c492bdcc3d6a73ccb838b9253", "95d3e842e661d24d199e2daec2958a416b61ecbf2a71fb7b745746b16b61ecb", "fae4cf8e49751de1b68ae2139c11c8204f2b07e0abb9c79842f4aab04f2b07d", "72953f15220b418127b05bfae957b886563b1b80afd15e8c944a0bf791ad96ff", "837ec6243481b74a7bede3126019abaecdcbd807169222d6d5feb1f5a11ae47e">>,
     xm |-> <<"222bd80e22792f517e605a5be6bc8218e7c5259db2affdfef711e5d578494b90", "cd8e2a363406edb5c38fd8ed33862decfecb41cb1cc40c56dbe7126f4e0123eb", "567a513cad7fd92446657e478380770d8079b353c9e5f55503fa2a60f3e5576d", "5ef23bb037607d88843b2546891a3b090d387e300d55604f9652b938bb9ba2d0", "99731d834f69084ab096f7b5e8dc25ce0000000099731d83e8dc25ce00000001", "4d62ea0764b6ae6f9b495190b2199877000000004d62ea07b219987700000001", "a1e1612d5a664fd02c151ce53c26a4a5998e21768eceac6d8c3f549ea95df351", "de88102e10c5d4121c0995517982327750e110b8ba7668da2ca37185a5a499fc", "2b8ba413d5e76b112a1894ef0d57e00e8dab5bf99de0481aa6e80cf18dab5bfb", "688aedf32db51a63d24ae59cba80570f5089762e180177c62f4a1bf55089762f", "8d5c1118a2d49f115d2b60f002eae4c0455e237f47fded9c1b033cd5455e2380", "2dafa35666967c47996983b9102f79304e39b63cdf75ed1ada5288ff4e39b63e", "d604d355a9bcf65600c7ba6412dd05cc865fd9bda4ae5b0c2c581ba9c878b640", "dba210c9161b5a84f478a0a464ebb5227711b00479b857174f2baef9b29b44ae", "1e00ad17a9137c6931feca1ba0a6eb61a23803ed31ed36341c71b12f4cc8e858", "4d3258d71fefa90a329a8dc2755cdd46fc8f5aeff5b76b807a27139bb2a726f4", "fc21304dc0e7dcdd29a966253c89da60ce16fa5b9a5f2c8d8a5d86d4da45d682", "9c2b96025aee8b3322927734da3577fb1c14bc853f473348e81427dd83a11cf5", "baab74ba8e1dc075baa3445c09aeb0674bd71df1b23485035ae6a4f043602e39", "345ab934444eac4bbea064787de965f2b5c9bb26c34a7ebcf1e8b12e44b980af", "1e44da186f9cb2ec56404f8c81c15e390c202ecad801adc68de18d03c5dd0279", "e7c592b6d79d755182c0f1fc6d88ffd251da0835f049f1cfbf6308075a5e674d", "ec6e06f3cfa814093057ebf7bc161afcffffffffec6e06f5bc161afc00000000", "766b0bce653054f09acfab0fdb9b60beffffffff766b0bcfdb9b60be00000000", "a81e787fcae18d320e8a517283a5ee0942c5e3173ec4740d11044590e23f35a2", "5dfa4d648f2b33a54907d7c92abcb8eba59015f7909d42db02e2900d88c4981e", "8b85c7962476b915db8946ea5ae7bf56809cb13d0ae91659866faf3d809cb13d", "ed0f21ba2cc8179ed337e86143ec4bdc4e9953f69e75cdc3bc9ab2554e9953f5", "71e5b73504df2743260107a381bd9b7e71f7d8fc55ae3c05feae31817cb1caf6", "e68930ce35b8d8509322e892ff9a778f5a8a452f1db66d663d7d2b38c755c1c">>,
     x2 |-> <<"5ce0e12a0459cb3ee746826f591997e405dcfe0db20a2aa0da50a49bfb44618a", "d4a47a12f9e3d064925347b1d6d2197d474d0e5579a994fce7066893eea21183", "c7eed55bb3ccd4074e723918ff3433ace834aa4a716d29af8b92a58cd01f8f61", "64ebda34be022a22b6c750027a162032765dab0444f338e9e04f4bb8fd1eea67", "a96f61c8f4bfe5bd178816375438344125cdb031f66dfcf0e95eb15ad64dcf45", "9f370d99769e2d9aade6f577effc8bc2179e03157321752a6ef4458b33162db9", "d83c9331af8eb65831e91045ea213be59320fd9ad3d1d9199b7a4c005dc44804", "66cd2defe91314921da45a90dc53d45c0e13ba0299b644ee2642c4f29d8df1", "f8c08139af896e268371758736fdf185c097e98b739823162017162599758487", "2d800e58fbd7c878bc61be9a8ae12c47855a77a514b9d5652ee1aa2985dd6a2b", "8bbf066f6dc4186a763f9f1ea76561b9e2bba8f88ff410bc6c1ff0f54dd749c0", "7977dac41bf9fa06bc26d763594285ad5f6bfca65b7308518991456c35db38cc", "ff9b388cc2e40bc4d70228bdfe17579ee59a46119effc73a9a9cd7bc80b13fa5", "e594eed21861f7105a2cdc17f077d96130cabc56386bc4d8778f62288b9544b3", "6c76ecd2accf2f04060de3b641c254b7b7d82354df8f2a013390be2a41c3737d", "266831add6ab56164870558b9f07c64d8149c8bbd1ddaf1a55c12e8c5163643c", "dd5cc2d96b519aa2514daaad6d28f92959334eba08599174f32f12669c118a19", "1648a1c9d60b88d5fd33d4a9f3d6c07b1fe42ee4cc8d99240cbd6869b1be0ed7", "edb901007f7e9908c90e3e9c818f460ab806694089fef0114025f40bd4b3e4b", "a09a35865ed6ec598a36c62645e0a586b9edc2f212fc80e8d881df9e7cfb81f2", "c191d427718454f39b21c10844bb2440dd2a343d95930da7c369454f1c4caf6b", "4db32ff9c1494d8881aff20cad438ce0e73624392dafef074d1f2a9cce62adc", "cbf905eef2f05d084edc95fe634c8a60f0c1b8b0c6ad2d09bd38b14166de7c48", "3c34aa8e48cae36099083c95f59b3ac69b453f824c8e5ab70cdbe0510c53623c", "e99a9290dfe8a5ae4d85d7ca056bcba1624bd313a00c16156e57869b4b67db8", "8e8129140a66c712a7107e187923991ec715c94dcf6b24e58db7384b6eb7fcd7", "b850f05bbde1eae7a310170d08b47159ca83253673af98ae1637fade1bfb204a", "75fc60178e9f1567c0c1f39e904a6594debdae2afc20e94ae6e0d01bce009130", "46f38b862c6c02b6e53262b8aef811bbd04c7019ab278ce0efd793bb68ac12ba", "a3ccdbe564f4e2f7d31ec6e322269fc46ea746fbeaf9915d621c068a581a7816">>,
     x4 |-> <<"9eca3cf55b9f34601af046f6f677f8c233b6b92c0d80e6e4bffa1ef847381bb3", "b2bfa0e513557cad916a63787c3e3af78e7b0fcc578500d11c2f3f90c22301e5", "3739a9dee34e824b6e6502e2b589475c6933e9f4b76a5b4c25b591b5adee8d32", "9719588628b6318729000938fdda5e1cb0d9ca9d1d6025d0dd05a23e8b054fb", "fe9a96dc0c8c2acdd7cc6968c89511c67f80c9205b36b8aa5db1086199b9a7f4", "d1164ab0ff8202a20b0f7c7fb1564c3e86c35d4fc51c5d1c0e5887d185bbf524", "e3e861d99ee514e93fc2f35cbb34a2a36f758786c02aae745d00881dd833e770", "ab77bcf0445f24957dda8c3d5beb1bedce2acd8552699e1010f47a9a81004a4c", "4b7b4660b958c8d501c684dc4f06905328963ac48162633d3f1460ba3eedad65", "6473fe98a65c7491b4b58abc8605637a45df3ce18938244057b997186e2ca16b", "becb0caa56a0b5ea9deab9c47be80b58629cb4c2a958480e6d9a8db96358f61d", "7dc62509189c01f0f8caab8530f3e6ca72a2378650187fa8f8159a1d3fa04d83", "3a486e248d60b0cef8056e3b378610d1d71dc31219f6c9b0d98f20931a67f602", "e31787add14c87d4e6d8a8bec235f985666b23d6bbc9654b270d056d7af9a276", "67515112acdf70c27db0dfec9a98ef9f7675212361a8113a6d531bc6f8d38910", "8ed1de1a8586e40f99298399c677bda23e7317e073c5bf0575f4e72ecaf0a300", "93d8d16c29d145052c2064f43f218319cf630a7c605d19320f535a3d155f79d4", "bcb9b54a54a90d6c01c9cf383333e7841404ca1cdfc58de6ea1c908047bcd64c", "5504cead8a0e0866eade92be6155c55d6f5e31bf4327c9acbfa6ad67f60b7961", "d41796772897f05beb20ff6b0ad56f0b2aba9cf02ce8578e6eb154dbb68a4830", "281b53e7d17d8353a9051782f1ad301388f58e602719a0241b2397fa70821a4d", "e2c5f4d456e8e586f1cb68152a3f22e1db40c19156178013d50e26595e2f5c6d", "1ada5fa3372ae78b2cbd8b7b4b14cef09ebb60d56ecd21ffca94ca63f74e7a96", "5ea623591babc701885d7ee3d13d015576ca68216d689bf3541bb44f3eabf343", "741819ef594b890811b497cd533b3fd934a8de06017b2b413c453afe1961ab34", "d4a98b8f00d76d356360c27f66e7389394248df554716895990fbc1dbb9d3758", "1532b53f08356812d6e70e113dcc880ae6b583ce7a27024d2d251e3965dd5d3", "3eff7dab2b8bd0cf27593ff6c523ddf67aec9fb5bce22782461d25c45d77037b", "19c8ef876e12e61901d538e5c9cf43fe054e4d7f3144c2f04bfbec76b1e91ffc", "dcb807095f6b6d5fa8b387139ad7f23a154c87ecafab606524b4a3d7b466a71f">>,
     yp |-> <<"1de8bdc89b6d4ad9cd8cc2f782101f2bbca7e5d0b795f19abad00aa149350be7", "1ba5991d6c98d36455d08d8b75981eab9ea481a2ca13c27c2058ba982bae9f1e", "33de5ac63889f770636dd846eb5feae22d8e1c5cafe220c52384026f2f7cbc8d", "e829d8ca69812384691946a5ad4341006b28821e586bc9330283d7d865dc3301", "c5747b4ffa11c73c1fd4a55d4ff6686df797382f430f62f1ec6874b090f49253", "399d03a4a2f823392c56d02839f327064316e04241c829dbab37b8b846167846", "35759afaa5d0f98bea6f19adbe5b7493e71d79df193c66b30ab0f6b69fa1190", "171d23f87f0e4a6985c98d9df43def584a2875333be7ce5cc50020befcca545d", "d19640ec6f6896da20008fe7416de405aa32a6b7e2418ecd12d6546bf6693bf9", "67ec5f0e59b6ae260e1ecc86c5639e74b9dab03f8cad356bf87c040d29225d0d", "86bd34d20fb047e3d29cea9cc06478ea5393e71acc3035fb328d5547d3b3132", "9b0a9b276e209e3e352b3fb7dc7bcb4a15c2766c72c9e6cdcd2bdd800bf3c249", "ff983ea57eaab594b1e9ff33f0079a814e7ef17f1496f2da97c4c8144ef4f558", "76488bc5bc1672bf39d24f01c849d6fc044ee84759e31818a75ed4285f84682", "ffc17904c13bb568052ea35e6ebaa15b31fb339cbc7f51e33863814b3f5233cc", "5a832bab6fa3bdaac14448a8dedae9ab93646e7542f9634aa346d3bf92bab89f", "9221bddfa06a0708d10149b673e2e490c1d4f4ef58f1fc6c99bfa2e2edea1e56", "a0e0a504f33a8f6892ef522945edaad2089fa1789afac6835d8a74831385698f", "9c6eea1491144f213329ccd78d4f1a29f0960b5c2fb5f4a61ceccbf5c405aea9", "4b77dd7aae5c08b5a29991fa1830c2dda1514836b8210033e47de6dd97744529", "da9d6c987594bdbbfe7bec71b7ec5a11fba809c41f04aefae01260529062e43b", "e0c0d4e47b25e5dd5618221585d9f6526407bb5f54f18f35e06bb564200665f2", "5769fb42268ce0370cd0a355a047265981a9f32f42d38f3453f6901ea04c9c57", "9052ca6f1506cfa2079bbabdeaa507efdb0b4011916af5fd63ba8b5219f8e731", "1da3e6d4abb91eeda885b0f189bfe97ca381af51c69f672e0e7353773668d00a", "5b5fe6588262ee56444ef35d259a0c4ed85eb9ab3010f315870d81f01a0fa2cf", "387df35563af7cfa6d1316f87e9fc1304c24a306d0ff8b74a481b70d5e50a4b6", "e6471a0a4ab0833bd2c824fd21c20916eed1aabc3a728c9c61863bf37a6335ca", "ef2a02221a8b2849c144109fea5c156550800f397701657634606e54040a432e", "7656e1622042fe2671bb14a76ca481143f0cf375049b74e25b5b73f76d0a6351">>,
     ys |-> <<"4ac4188e3065316f06bbcf7cbcc2acee640df8dc4375ae21d16a880591e699dd", "724465abd0b7f236f79ebd51a34a8d4293c5ff6de4bb887ece2f923ea357e02c", "a8a69dc3ace679c97b4d0626accb7d1ab333c9c6926d9226031debc051905f48", "217b4c9875b7db43aa91b8dd5887a2f9ba993660415a6a7cd090a66bfa6cd7a5", "409d68d00addcfaed3abe15f8e21255ebcd7c23b6acaa003652a4752f606e516", "5bb5dbd881333cc7127803c36cfff198f8a1800ea838233e1e804782340d189a", "3c713f8810ea90124af9386b6d5df74b1960a093c143cedb1ce0b6c0e40dde4b", "c64060b2ad63545c987d501e9238c3c80e2df6116ffc23c9ce096103d65dedf3", "3386ceac79bf830ef16f6b8be660c23edde8c9760ee2d8b961bf08c990d7c1a0", "38ac1a00ce24f17da771a80eb3cd9d976a8102c7b1e432941012df809de69100", "628c078eaf01dd5de59463032b571653e2d89d1dc10ed025cc055c671e1e67d8", "a6e0e9ea25795ea67a74293f658a2ad78f83c2be53a8e18abfb0ce896d9350c5", "8a8336bcde2c1b74011224bff9742c5d3189c03a89e9b105d2dca1e5fce80f83", "bf0dd2fd07a99c0ccbdf5d0cec9f11ca11d153bdca707a2bc944c55626b34f1e", "8a044d66a460980250401c6a11b4fb6b3dbf31aa0573b9a89bd35c970c78fa66", "ca4ee6baf869821774182c6bef07f6782e3fc329a360cdde9dc0548b73db7ff8", "babcc8446b711d2f7072466143f8e93aa80d024fdefb2df4e11d7c2ffb43acc5", "af2cf73b432cae0dd6ca3c92e827a2c829931f4b628914373f01dd3fcafb1e84", "ba8fae7932090a55ec9381ec7fc44c20055ff618b2cb9ec4ccbf4a4550256e05", "d632fcda4d38aa54536b513ede97afd8ee1b5b953092d45dadb651d4f16c47f", "788c34aaf0ab34138aaafa304ddc9018b712af5f1ad0c20c3f745fcbe8a9855f", "83a28380e7d331bf19432f870245c3a43762cd927ff22deab410214e4d6ec5d5", "4fe65aeec8d6fcfd05180b5654b8c976fcdb7e2f1895109c47dd1ab61ffaaeb3", "da7842bb4e662b9a044716bb4db1ed6d7b6057bde6f12716cb7f47b3bd2bf16c", "96f4148a690eb0fa2bfd0cac9807c2d0b965c22a34783ebe7b9fcb5bfb6a44df", "c697d0c3092d85378e1e4041dabb0ffa26fb4433e04eb8a25da9051fb6db9279", "87e447829910de6d8fb3323a294e859e1ef50fe64f87db37865b90981b144c21", "e0ff0da9707f20e2a0e4726bc1e08720af85244027ce1782a0087466ab2d0ad2", "936db96582e9b3c0387f440f0c10d2499b9328376c26398a25385ccb03f57fa2", "f3b03304fde21586500a556c0c06369944dbe442e86293298a8034a3f280e840">>,
     yd |-> <<"7ff07bf4a96fc06a72cc9fd95545a7ea762b5d6c85880c06764a3f185125a97b", "21655e09117b149ec66f192b92e74bde79ee2f474cc4f291c037d38ff37e0402", "cd7a37c3e184b5b643a24b3ab74c0f15f5d0c9b168e465651d40605ed5bd4562", "2b07f7883a72630fce8d228392d9431ecdae9a13172c81db4b09584dfa5f323b", "bf049624fa5271503476e291ba8a57af227a753c71d9d85ae7ece6663bb859d", "848b3161c3d549e22b8480f7dcd6fef306d3961a54b74c362f4948c7c545339f", "4bf8df0ea7fae1da5594bc68afcd61f4b2faaddb4ce9a8cdc5ee3cb490f201c9", "cfe86e80bf9cbaf86b32bc9e26ff47348b26efadfe750fbd043ce2ab069c240f", "7b9cf6e664cfc93ec8f787e91e9c95006fbe86eff6fa80a6e08185a164bbfce0", "5b8dc72f89e642b3cefe498c1a9d177ce0fbfd7c981124e2465ce6b31d9d5c1c", "1ee7a0520eded0eba65be6db53f013734f1f5722a13c3447e72ad0531f0c23e1", "35fb2137022a05125beaad55b8186573d94b7e7ccf099444af14adcac884dfe3", "37a47a0f26d8122f5be8dd0aeedad346bc22a869e7b4e3088a4412205de1f85c", "5c4a441169db99e9d9462e041c4cc413e20cd120e626684f8ea7b7c3b244e5f6", "3d2953d3a7bf9d45f27312cf1abc38abbf866c16dca451d20dbe6f272dd5879", "af4cf8be7b4bdf95606cd910c12abfcaf9eb920304cf988e2c33ee3864991a4", "7a375837513adf51ed085e74dcc9cf498c2bb27c3b36aa29ecb7fe552b5c6899", "8dfc5a1b4db34f5d344e4c85e46c15cadb9bb6aed937067edc661a6d34796493", "148e0994ffa03ea05a871f17d69b155a3a9065decdc49563b4efdc87cf02e210", "61d32e8758652b10e6cfba5cc2b007ec0f9c4479e22acaf8aee18a002498f8d5", "d6d078b523a7c43d953e8de396912452c9dd90c898e3b10f66e66083e51351a2", "5fcb12d3adeae55fe07eb29a21e7569eac1ce3f28ed2dda570bb7ee1b28c4936", "85f36372de9c2cc3fc1c9be66c29541255f97d70858f3207aa14643a440b3b6f", "c974f851fc5c8176b93148ee61d6eb8168a003a832f9312faf789118d0a14c6", "d4c46c06f401d28e3327045445671df5a3754330478c573d72dc6a6c1d367ed4", "61e916f9ff30156dabf9dc5e75fa932db747c378fba6ef30c4d62d2d944adfaf", "9c34f289ed6a297b73ffed21f6747a24f89dce20fc0c8d60485ef33d52fd65ce", "84379eac58dc02ba3fbcab0d3d994650814d739c3599192d49eb14f3bdd60a02", "7c77c4cb8ea95ad4a7c830f9c2fcd5eebeaf92550ffd397b5fa7330b0dc17942", "6d731056c027f198d6d91b50874ee96c97c65bb7d4df16896527553dc3df510f">>],
   p384 |-> [sq |-> <<"398568951ba5d8db11a534571b6d2916c907a241785c7e7e6575acf0a72f621e5cc9517152e6fca94aa23894e0e46b1b", "8db4b7bf149f204dc40e4d263b1c46a847cad651c97bad4dce950f6d1d7d496d33df99eb6a82cb4de8f348e7c21abe64", "48a7f20599b05e7d325fa37652b8425f157c9e3179f199de1d3324e2860ddb769469b63a308b3f74a5ddaddc8fde276d", "b83d7fe354a0c3d02355379df9a74a71e3c6897164c08871aa1138935d2dac2ec3cc5908d03de1675df24e993c5be7b8", "c3c990033d4389fa27f32b19841f104a81421d733732f56334ed66857ef2a1d32d3dd584748df55cae31430e281a2df6", "5bc6fc764f55a42b17a148f65efa72bb7aa132134d1e521169d401a7cb0156203c42b8eaac66e2b35715edb2e8c9a424", "43ae293cbddd2cb888a3793a65790e97efbd8dd2d597ebd59c47723f3105d90e2f043fcdae69169e5418b8bc95d765d7", "51ecc2a182a6ffd7ad166021c5a11c4c4071c1e9a81947db0944310d48a558eca9a2fdf6a09255f846976302768454da", "ca12dc44aeda14776abd4e7aac2ff7100a2dd323da5e9b971bad4ff7ef24bec4beca1fe593ea309f51e09335a3e60a55", "ebfd9d846984e24b30871a70e4a3b06e954963387e6aacd1e95244f084fc1f47c7855b0b07243836875fc923047ebf3c", "7f58d1ca85d345683811bba3464634ea9bd58ee3489c58f600048896c1a3a7030e9660f601689c3c93e51648f848cff8", "8c73afb7b2774fa987afa0df32392efabd031ddd37a95bda00523192e16cba464dcec9d692a7307c1d79c298cfa68f06", "1d79552fbffa31df928ae713140d2dba2a154716a959b448fff53e1d0a937ba75ef134c27e59ce1f2ed99578901e12b9", "2d5fc0a5026bd26ae36fdeced3a8dfc7c01d22c65e81a6799b122737dc764d2a056755e4c7d0115a525b351bf17c9b15", "9cfe4e50ec358365df11f501f3eafd5265f31aa14560f730da640eaf6d770881e6f403803cc82e954c54ef5304fa142d", "63c024febdfdb00e9bde476da71503b37d84283a4b5f56a91b452fcded8ce2f085e50a37333647cb31af46effd6066f1", "9f60faef6abc177b6ddd47cc1afc79042652400c961a5b584b5f631d124fe96b1b110ebcd3f1ee96e0b8386e0b2b3ac2", "baf7ea2e3b0d54483a61362d053d4529798834af6d69c425b817a748b7a68a7d6cf2dadca3ab297f45e06d19e3c62159", "1edc6d9f1af2ad4beebab9cfd407597d0bb60fb229f9064d3d0939ae802148c63ec722a9aff4ab8bb2c1d9ec6fd80f2f", "fac818c6f709277b090203e9f2029ce13f0fa56325d425bc2fddda6b123736159c7aeb7ef114eb8148ddcfa2b782f759", "d1353e248800106df6ff7bdb80d1935de3fc59e7a12540a9b5a12e83f333cbd6f066ef27c6747a2aef62d9f7f57b5a03", "e4fdff01d729f9c96f6163422a347d6aa57764fe8d2458b98350222b77e82e759cae97c10b6e649939a261a447ecd44e", "4c5857daa5422af040d03daa4678f2a607ef6d5a0056ec131e1ce958aa086da8b8fa6d50d3be58d10c041e1cd6aa9f56", "c66e5e3a3350181dffcdaac424ba66a7a68cb4bc56ec9f6f814405d48934e8d60a64f91aa0396f0848408b46926cf398", "ea763457d7269bb11da384093d1858837e73e2ec5bd61997fe42903f70ae3b3f3570b5643bb1d8a234f997a118db8b48", "2267a98a3be7f79506a325b99fa91625a5b20e7dc5bee72cbb9f3f62b7ec8be3c08b4de7d96cfcd2d832bc23c68857c1", "a4d68ece9b9dcdba13ddaf3fc8a29b95c6e7b8b7d68a4f01ac2001f5656f0a8bb014930322370061d671f7062239f4ac", "a9b343a96b738efabef10fddc6a01282a0323bd8ee9b5a27591e5db87d33cdf283d9dc9d8b22ea7d038a241168c0d30c", "f4649fd892eb40ce41c6e098cbd1b09427bccbb3636834874d0b71fab0b5457e9c76114808f1d1aaaa63bc9cb275e7bc", "691af32dc3593eb27d59a49646bf8f85ef320b8b3994f4a153d1132f9b85230a442fb06d4788f13012f2dfbccb6744f7", "6c4f03e6f1ac407043c991a88b48f6b7323e7a1aae891611fa9e0645e61e8b3181e0b319f37487ff2ba4d65a3f35ced2", "f76b6cb9c54be37d6d48d40d4e223b1addd8d8a2679bf8aa7054a542ed496957aed08350f3531399085cbcc0d27e8c4a", "4281e3ca75acfc7ba8312e005872ee8f8204e00a4cbe0aadafe0bb99a795123f77649ec75c9f0764721a0e1358452555", "b7686f5bfa453b1287a462bd4980d5222a39d38b6a35bc1aca99c196477f3e2c83f1a0c53556e5c040d471f3c83e5ce0", "f2f189807e0194708f694a0aab22d1565092299b4aed91459b7d7cf62775524824add905759a31d07516f37e4395f9f7", "d0caa6d3205d63243aae346e6cde251e81f618ba34ccbc6e72e0cd5188c99200db319d56e8e8fd6f042f4e40af2d4751", "c2fcb6819087194604793d0cbc20c89479157d9e2b3c91ff121a1b617e5fe8bf7940417fb6552abd27db03d691312f91", "fb29d778a9f67f18874a8ffc16dc00c6c16ddf4f921f11b41ebeb95962a01cbb467fff3a642295ad5b847c78b50fde20", "f4cbad8c5914884e1ad92f7a32cef04cc428d2c3e9dbc22d1ec56500ff286de010cf25681582160a8a2e395661b2460e", "396e4f6579249bf15071ef84709eba548ed548ae69ef2217dbedc79704cec7819712363c0290d88c43e851d4405f98f1", "a8e2d7994da0ef3bd58c9f65308c3c9a4b99aa830f15f315d7343ed985927425dfb34a77d46da8ba96da628b46a4eeb6", "e4a5a3e143f78175f6f22c4665e2d3713fc34b471d2595fef4d1b78aebfe916aee18ba603b222330a645908cbbd5d071", "ee74b7cf34581571800616c5f04fa0532c508d14ab69d7e4a3bf84489ce7c85f5dc3f4be3a4587a65b2977de8b2de87c", "6e7c20a48aef9ef7e26c12b52f7b926b7e311180381ce3a7d55a4c3ef93fca2aed5ee4cd750b8e66078d1304e1e4b05a", "3cee91dd1d55c0caf0a17ad5bb1597261223356f54d98feb38163d673d9ffd160881aedf5873f1124465a884b3831808", "93888b4657cfd806096172cfc6db85d8cb157db3053df9628ba30395ae85b6759bc8789c5d3a2f2005d7f6867f425df", "ad8056e23bc9bb06e9e5f321e7188ee350186870642367366d0469151be5157281b61662048562cb4d09b96cdc8efd54", "a02a3418a37f0dfe0b712b3a1df94cda4e67d62fb52fb4d2246f6ee0c411cb48d170ecc2542fb927efc01595aa0bb8bb", "af252284784c84ca32ddd237ac9d010de4372f8c7af8a0e8dc76525050fb2e5cf7c1dea1b8aca984d80a295f932dbdb1", "5f343dc717080ec4c4202be3c404d4cc09b0c6f71a6f808692f86620ec91572df6c20e84ed3ffbfa41df74f3e6d0c72", "a0bc88023020229f1e6d75984fa2fc32fe27c1acfada884da2f91a2e31af9d3f9a2cac85a70923df45d8235dc3669fff", "50345232f84f638c8442aa3254ed9a3d6dd5843dc0b23ff4ca887de2766b57a7b2a19d0b003d029cc45b5e3d415c3d35", "868dab8600085bebb3ef8099b5cf37c2a361b5e8d32648a985f7caaea29cc7efca9073128a4de62990e5fbcb1dd7e55d", "ded01c0813fe2f89d3b8c4fb901fde2d0e3d273978c6b4f991188052d3a653d3384edbf1b7bddf676f06238be81773e0", "32b87007512769a8877ea984657fc0d54e503ba71c91966d92a63dc0d197ed53d0b0b5907f11adb7ac8831e09bd3042b", "237fc52af0023b02e33d24505f661028c77a70347c1943185a290aefd48c997cb392489c554db569c2e396d835b5085e", "ea9c7360b28302d3b1c5c6e379a8493c221d911e9b30d21e0acc3e592f597f52afbe3a1a6d4e03b78c4c1595271bf06d", "da4e438c2e3cfe9ea5cf4dcb7dc739405d309aadd57dc42c70a4be45b6211ecd30db30aafcd4eb86468bec6492626b49", "ba688d072da162f58a3cf61ada9606d084eacd40c5fb1c551a2b54e7dc861adf050c03721ab0ba8146f5d3a114e5dd0c", "4a9d272ed6027917715ba2fe3adcdb06a2cc95671a2bd050d9ff91eb5ee5f383932e394ffff47e924963e151ceee8b33", "7762eed206aa212f02d55bd968d5053489524b8959988272d994d668165433ca9c4aa9925389304fae3c6b5aaad9c21", "79afc8af3c294248191e78e7b6a43d3495e27286513bc8ae1dda5ba2936d4fa32ac94eb35f445a64ada7196a464b4c74", "748ec10b66af9b8dc1b966acbf3bf6711adbde9b105ea64c72d7c5d2a599475fa085cc656c61a13942c59dc6d59a3736", "a05dd12e9abdb7e4e757a9a77266b8ec5bf5fbe411ef4064546fa0323bdc6e121ed077db7e8f8d9fc40f047289f138c8", "851462fea9d029c142ab4d761087dec6aabfecd1af239b68a538ee68c28e9b3e3b87e6ffbd350b514a2cb9c9065e2a6f", "1aef9dbe79248199b20ab832938e7526b8fe69e77c2c96b0ded5d7b7a33014c179763ac1da11978f6b258f7ed5b520d7", "65897fbada1f2a6cf02bd93d2122f09999e7a7e120017cc9769ef8d309c44fccd643b71ba56478a50264b08bfdeff8a6", "7c6706388fcf9df466ffaa0a3aaabb3576c1283a3db4f3bdca55835ffa608ef9f0f577fd686e8e048db44d6486b45c99">>,
     ad |-> <<"7b1294e5076de3d7939d32e3fd098df42b7d09c810a01dbef0eb758a73acf7b5cc427ed4fa93749630271950cfbac41f", "6e5af3422b38ae60037acbe589c8b20c26ab962ab16f177406bf5cd00df7a945840f31a43a4355c58e3d9ce1b171fa9f", "9943f17850ac5d917f536040664a81c28c111dc13d1f668e78ccdef94b6f0a76e78b63e09bac45a1c7e423a9840d9b03", "e3b6fc83a93c6d8d22100897754721ed4bec5532e12d23283ee280f4255bb003b1783d83a309247d20ea9fcbbf4df0fe", "b8bb6d4f00f3a7c5dbc6629e31d9c1cc2471a84c4af05abd3f2d522d613aae770735dd0c244edfe6496f7a8671b161d1", "baafde7163f9466649151c8be989298c222c88a914fe76aa4a35522f9f329652b1a9b0732e4b675bd12c02249f309bb1", "24dffb5b7a95d86e70370e4e4e246043a930627e030b5cad39c736c58fec8a954a068f0c50c4222f771cb4c8a172dfbd", "f139c87b6e82cbbe3007f17895f3e1d33c03e77dba726fd9890c6baba58c7cb577ad60f5fdac8bd750d103e0c577ba5b", "51bfff09b6a44b47b6f64f4ff2b06cd530be0b714cea52f8861959dadbcf74ad4d5fc33a53c7cb4b892c1bcfeb21fd37", "b427449bfcd17fbc5e3fe4d1bbad848dbefc006d3986ea20a8b06016fbf2c442a9c178f8b028a7ddb4ba96df54f4bf4b", "1afc501ea46587a033c4b69cd46fb96e78876ed017cfd86e2e8a28d5a8ddd2429389508340718d12b1c6ac63144700ae", "589b2ccb153eec090d8311dbe85b3928d736533c1652551ab2ea35c3510e74cb7b2fd015531942423932301f805e4b8", "e992ac3d06a3e3acfbc4d659a61bc1d1a3a8fa9cd50b29f80f939b1d6778ff4b20f04a13fae0d75fca25fcd0619fafa6", "459abbedcb6f365dd126898a573274583a0b90040da6a6ff954b8b697f52942e9305ae9b234cbd05634e2bae32d7f27d", "2e839ef9843eede8dad2d7e6277db9c904cea49ba41a38c7d8471c589781bfba18e79920cb0349e22bcbf9d133a77509", "860ad3b453e5511c4450848587a8ef971bf819c7317b76620bc7350adb9b60728785ca10df32db7b925b37cb479e5cb6", "b4d6c9e734de8b25bf5239263f368bc7da54a2693d1b824ef08c1dfddf794b7d52f8f937499bb6285f1f9677b358e0dc", "b1c9b986086ab4ca207c896a38562bf6c459c45dc9692f39e7928f61c5b498ff5e4b919d5cb636e92e5b9cb3070370c8", "d6404f0b62431fa7f7fc9eb9e49bff8471fbcb30c3592c98452bf50ccbfb057e4af08c0644b74a0a7afb4f52f093dfb7", "6d2bd7bd5d8f6d363e74dcfabee2d08a30558ff875724eaf6539da148d6eef6c6d8fd79796b556bb1e2f6cefa09047b", "4f2bccbc9b512f65d4a352ddb49ac8c962749bae6ff8657ccb618a3205ad9c126044f5b6ddcac36a53ed67a219838d65", "a3a21050fb25bf349c4651ecd065d7d0a09ad5c53801eaa1d0453996384e193576c8510a267e4b409666e6e68095d0d2", "4c801dbfcf37fb208715ffbf2bb94559fda66ee6e4794ce8dfdcc76a357de66f5adb2d0a3060fe94fff5f7ff331afd38", "78e827e112d2bd7b6279e41217e559a88c71886a40635b194469e047164a6f916b3389f592342b51baaea57b63d6403f", "25098e377132b133cd8f14d6c0f731ff79b72c5ac39977623df407585c7df09e0d1531dfae683ec0c834fbc99955889a", "af7d7165b8d6b53edde9575e7ff2603ab8661c2af9efbd9638fd584d9c35cc1fa441ebd89105e3066342ee41f4d1125d", "63c744505d3ab4514390385bb17cd12b6bc925d1e1e647a5c2e892e3b0db6ee34bf3a0d80f6a5cd696bd78f0b5b70a5b", "49335c622fd510437d37f88d3c242cfcc1d4ac68f58360e66e809558315aee8917995593861b0d73d6a253ba0b7fa503", "78569ed193d51142863a3ef20afb98c980fed8ba91e9ac04314023b3512d261e8390182e95a2523e36263cdb035bba65", "bd181ebb39591c3131794e0390be9ba1ec42fcbe000c512e757a5b2237e6f6128ca820b52a87cd777df90ddcb638db7", "b17cb35768ba60516e0fd09458a0cae195dd700a39b815a32df5001a2c451b863de192b48fe31ef54cbd375874b6300f", "207af923d36ea28340a556b12f4621b6f458078b21d02689f4dca398d8032ef74cad8d83c45f807e633535e7c377d046", "82a15cf527d52e7ad98f747afb5e36e149d90527457d1127acfc59ba2ddf9524b12fbcf84bf200d466f02a3509298594", "9c62944a51d7a7ee51fb61a172cbb1fe1d3602e27ce27950311e1943ad21207dcca5eef8080fa4dfe4edc4239f02e14e", "92bd620d6b4dd0b02e7a26ccf38ff53500fc4aed903c62d22d06f85ebf80d1c35ddc8ed2db7f2e7fc8fb9ad4dc280af6", "8c7a1c09d5ed3794db1196b53710addb4fd0bf8e439e5ed625d7a48cead554dc66cbdb205086740d733898e447d688d3", "8b546d5e214f466c2de06f1b7f581269a5265f6df8459266c6cae4c5d8a663655e88028cf75da795a9273a75a4229f4", "f68860388f149d7dbaed08520de048a2ccfda0388822d412c1be5c5f37fd48d5637d6c71f55653f2cdda5398187a0053">>,
     mu |-> <<"df79bc3f31cd5a6a74cc4d0af7d61c5190ac02454fe29ee823ef0fb5bffe40ec57af786a8286d665db1276f0d0f5b945", "101c5661c1f783102fe50abdc49d9285c75c73d2ec0144da99c1b0006e52287578d2faec6f6ceb1736dbfd837e39cf2f", "b68ede410d10b01e169857eb6db367b3271fbaaac8dc3e96927ab21b1709cb148e5b1f0502e18c00f3601e445df70155", "fda5df9ac3308af5909cd31f98c528e8df55f9ec9e129a356c5252de07091278e0392c4509ad633f173c2ed9d8760ee8", "43eaa0e15526cec20f34bf141cf4e6784d5d1f10ceb3de2d60dbfbb9dbc2bf26d2b41df244062772248b297548591541", "eec3d19e069baaae5b84d0e8cc00745c31c11b27d7fbad59d885cb47a1d2ded1b35d9f2c2393e1c96cdadf74eb818c39", "812889a0ade01d97f3c11d36f3e27ec97ade28fe30032d4cdffcf7b7be9a43a9e79e7d70449b79ddc4cdd71285ef353b", "58f57de3d31059148f82e105d0749e513dd36110f4ed9c3d6b0498aa016d1c6dc71eb1b0bb9a6dc3517b9add63dd0da8", "15541d14b021fef703140d31848cd47b33ac21225cef4141fc0aad7c38855d9e74a7b1a8da32feea8b132d367c429afc", "bf2036b9df16bc4649d593ed85055e77eab8b4628bb03827509a262feffd87559e5f3d51264363956ad79d0b66b94d08", "332bfc2cad60ab6493b56d1ad17ca2eab9d07ec6f995b091821c9072a9b75f6a8b147dccccce0714315e08bcc8ea5478", "f1d4261dabc2bd790ab1821154cdce330200baeb7bb2f9a1dd741c036af2054283788e39cee2021ad3a14bd487a0c0d4", "eaafa44146e1a562591f64a756959360d4b0d319f9445f7f2e6f0ad19081510015339230c1e941ae47890c4cef10d2f8", "27d814e856ab4d59a37c22195db8bbebbce973e339efc159a5ea00be1536b5272b35ddf119771151478878b4f8ba10f7", "730f0582851d434f73e9372eb8884661662947717336a5dcb24f7cad04ae4884e40a80fc75a641601a421c2a926412", "7f0ddff285a547dcf080679f7caae2d746a353832521bdda51d223b94748b602ea119cce8866dc1f4f147d8e1e70f32a", "adb801d81302991dad5f0e2f7dbd28348c9d5f48fa1759cf8e50e7c42a31ad092118bb7fa90602ba6718ffd23caa8d95", "c28e354a0edd04088ae4e27c7247d91c0cb85e19b401baad133c815fa368036b2aec87ac242ecf99ca3c5340ba7e7f0b", "5b0b416509badf58b8359b05e7c0c19d228d248e07eba7d257fa71d76ec3b6a7b63858a4c4f2ba7624a043a673a97dd5", "f3499e907e3e0ab34c5765b4b9f32d5d6ac6dcf5ffd2ff12880aaca6da5e7ba78285a78e22e1bd19435ed3fc14122892", "eb9e811d95e895b8050b0efb853a1e9ae13a5e4a12275e925ab5ebc86f24764356f353aa4f1e85bf6466e1163d0a6076", "a33e8b7e8767240ad07bb5d9dc3308dc5f97f5bd79e1e51a5a17b23a9c88006ee47ad4c39a661686dfd3eefd18d86602", "a7b09c25f1f4004da175683193280e8a8b71a96f8fc9e6922e8f9dacb853f677cde03585603209b09a60cd991065b825", "f049f703d687b2aa6235c7d469c66c9fbae95ad6dd6f3113a73868d766bfedf98fd4904dd8a75aa5a4244d52aa54baca", "9a4551c7c3a512068707e82ff157591f154b8e779d7157566a9c1c47e666eb815c7316c087d82c2b2e418b659cfd4dbc", "5fff7725b829b2a82656051802fc3e01b0ca9496835309f4824b4953ad03fedd9cb9ab710c5ad8c19550b2bb3f91b456", "314d9c5fd34b038be9ce049aeb33f2cbae7a12c0d8869d526662a8ee22071ad6ee13bee07802e125862ea92ceef64c1a", "8370a34218a57e3cbe2704af970c98d8b14ee0eb0c4a0700a42166e73234471fb328a5023e6ca9ca5c60fc72e3fc768a", "90a12f00a441a6fafe17af8701f2054369fa00a7f6b828ea48d0973596e4295a1941154bc7e86b25d3feefde17519c5e", "61a7bec549a12388f47c13123e6843765b278c818a459e597d0149742c364403c7fa49c700bb1a332e689433ba987409", "74ffc4a5c239749cfaab808518d68a43689c1381346c0396199bb2ab0755df7f8c90a54b2afe1eb09239da83592cf443", "48be5759d1d32dc7ff9f9a2fc7a75d4624f5bad79280dbbdaec771dc9f3513f4653f48f505805765b9848f0c5a032866", "b23631470f65818591f3199c52c452c2d05071021c48869638d021a5b7a78e377abbd4ffe681a452d8743446fa9f14b8", "2c6d31511c7c80d32021b5ec8b187c2f67a5428fee9430b5c2709a12869b890596cfbf337cf54dca8e60b798c998f604", "f63157d81d945ed52bee47612eaadf8b1947fe4fefa7ddf56a26048b912c41206c989a10a32fd2349b64a7e905c6cfc5", "32aeb8b1a105fe022f1414a46b35ad2acfd1698e3ed09057c7431d89e30ddcc4f2af8f64349417b1e26c3a52b8d4e327", "791eb6103232d2ceeec5ecdc366d18efebdfa000e56e9d009d0cda27c0c2b72ad525c9d36e3a1f40d446139c21e22eb2", "adfdad1763d32f2a66641cdd8b6a3aa00d656ade02660555083588aa05dfa975319ae6174591708fa299fa352685927b", "c2c1fea6e1d8a38cebb645ddae30f59dbe2c44a6c1bc662cb2ba2cccabae0ea7c65efd6af9a6653438bcac233b260150", "e1695bf5b9f3d3168a2b80b38ba148516a5490db64162c4a76a19ee59c4a09775d35c3eeb3ba8a719449223494014722", "c050711cd2497a16edc41d9ed228bf3bed5d1f4c5f05a058905c9c809865e71af4da6c33b679c4d5c2b3a82385b183b0", "5e2f1e166d4422ddbebea7a46de1a70f84e0004a3dcff02c523c0ac63cfc07d7a3e8737654bf96a6d60d53b0fcb3eacd", "48d6fb2b38eca7404b05faf81874a171d7922ff390392d1a1703dde77d239c2d4380d215e9832d4f64a3c1906556c3e6", "cfe6db5128d3e87c2dc47c57a2cd7a2f19f6ca093be201f8575f86cf3ae981a44792f76b8a618ce71dbe24d7cd90c027", "31dd677b43d349c1676dac4b4f45f11a04d4614e9be1595bc8380170db345255203a94d55404edcbf8a645f58ce6b93e", "a564793c28aad5908472f0432a8b2228ab12c541151dc3a03f8ac7feb6b6aa9d0287d150ffdfda4e0d4c9071bb11dadc", "cc8ef0129813fbb9b13ba6a54920bed9c73628b1d44f3e7b1dc1a229f443ab582461f8d2bc98661c3922abeff49cdb1f", "a45b8ee16e314f05e17fe0a9b7a9315a480342f38e3daf61c7db6773e907e6a11f849a483c23e00348602552f786fdef", "7c31addc386d1cf0b79256257e0c17033792371fbba36da4b04c019097f03734d9b8a16f4aad3ae28123ff2b258d65df", "66d9989819946dc82d43c0c56042f3c5c3cd2184ce4307e60c97b8b87376232bd560b25bef81d19b4676a7e17d3d75d9", "ba158108995fba16c7e4e1da524359ab8872f030e6bef5a0020e962da60178013c2013ba3bdf6eae223ae4db3aeaa3df", "5327a5ec959fe1724f4c8e716e4761aefd83a05a32934ce44e4e3c1393e0525dee22b9a9640f32929a9197f0854d5fd2", "a03e8e3748b80a5bbba284201442b9b1337aaec22f43dc41772cd4695180034bbcea42d4e78411bedde09318d5cfff57", "430b95fe4fca8c8ccdf08be7590ad0a7769c3b4508c307bc06fd364a6ad4edec1ca9a1934fc160d0adfa9968aa6082a8", "28d8561e67b64e92b99c739a20d3ecfd0c8205398bcc2b34d8bde5a46e0e0afbecc0492d030cee94c78d0dd6e68ef1f2", "449ea4963a0ce9c614999852ba3780c73cf4883b8b8d0b746b802876fa38ded80f4007a0fee822dd2df794a74298edb3", "9b19f2b9de5b9a52ab71bfad70b299b1b91b4b06b9e8e25e6ebd2b18098b0436ac7552e857a320227267c440b52c85a0", "297aa33c48a958d55d99c258ba0acfe454a29c88e3ffd4933e4d8f32f4b06639454962a4eb1cc5d718908fad8a122d25", "72a5fdc36fab812eeb6a945b9b22b45a0f659ccbbfc485336a731787cbe3fbffd055a0520264c54b59354a272955525c", "7c8a7fd97461bf3d582efef1e728167adc8ae5b028ca21dca747df08fa0dc4c45defe4401cb707d372244f2f106697bb", "cd10f06dac3d73eed0da430fd924c7b9656553870a89bc91d812032fb3bee6f02c56c04351ad9d67a873a9a1ce32b714", "24d8e7e0b90b6a93cf08bf6cf10c9b37f015f36b68a5eaaadb25dc7a6d2423307b98ef0919f33f76f48bbad5001b4cd2", "39e52dbf436927ca60a1158b66ed95ae2f57beaec77cc3c90e7cb1f6c4f7a1d3dbeb24f012973bf5158bfa7855ba9ddc", "3e4adcfcaeb456c9f80fdc2c179e6112d2954e30a14f64e930d61b48ab9a73a47229930f0d50deb543d509930d95d0fa", "4fc2de6febd25a91e87ce49cc1a52d76d029c6482601b9b67c0baa6378a12f13969df068e6e2258ea18e301bf7abb8f2", "77ce644e45cbdbd2027e492bc95131187119e6846df689da369928d1fbe932919023a98554f6b281f73740b649152fb", "353e0779d30739fb7046b7aed7d55755c40c1fc59e253269db974a3661d38f88ad743e5cfd33d9ffd5e1d1c6b567e428", "2a25aecb5eaaadc34893b39ec25543fc7fd4a47bcf12fd356a1344f8e2c7b18e8a0fc2cce082c67b3dba4f1f832e3f1e">>,
     cu |-> <<"2b312adf2ac908aff7efbdafc2bc77aaa4c0c641816da800d8962b784de235b2c341ea11a3fef45d78cfc2a21b2ca6c2", "ad2baaee3dc14e63cc607a7e2f105979dae9ebb98fc6cf3f93378415f295e2df3986450e1df4a5d4807c85089d020a8c", "9f38f4e9cf21a6f5e8970185c976044e0215101b9a025b5edf63ffee674a151379925b68f3127979fdea70289da99d64", "cddd0ed9f0eded9cb5c003ee6b1c98f883a1a4512eed42ba9202b128e204c6f58d39febe294d8f1238fd04e48c7f57d2", "2a9740335061ea8dbad63ff4597f96ff8344518606a8661e83cc120419df548afd04bdec742a7630960de28685a78dd0", "5da57a81348eb6d162db144249ad447333265ebdab08a102a43eadccd72532a3c72b7546010324d9b3a12689a36bac16", "d20f9af0f74d9e605c1e63393082d93bcc55685bc11710af9b3004debfd15929c41da6b69fb7a644ebcfd4bd4b788def", "ff388c83459adf6a637e41cce44c5ff87e3cf6239d42b230740d8d9d4dcdcb02aa527e01166e2933da3ee54030dee3e0", "ce77c122e6e1bb6150fa68a738cb262b5275caeb8b07bfbe1816d37373a60756d8c20a0de3655e4f719008ff0ecda76c", "3c9636636519098922a54f9f5bc74092b5ada92300345898c163d507ba180eab7b7bfa584a403b3c6156df8e8cc2bd3", "42001e2bfc9498ed9086f61036b109de775970141a5357a9557b56cef3b630531ecdb5cf725c84b935c395322799f85c", "68e0aeabbfa088f7ba77d5c07d651f1cc3b176ee028ba768d19551a95ec79499bf08c82a03089cf65716d9717ec34335", "8befca99fb65e3d79c222d573dee80072457579e42aba332cebb899a1b1f6ac4370174554f3a93d111449795949eba09", "5f6942c95961af95d4db81750b6a4c318144b4e8eb2c96320a41041fe18678ee3e39a527c10c424ba7d7dd8ca34feb25", "1ea82d8fe71eb7f2f21b92be61bc2c1a935b13b82846e67053b8f7712afc6f4925337e900d83edb25a1e1ced5054733a", "f54d3ffa9c2b81a9182a5b34355396fa3f0f1dd374119b93df68a35b3248365811f01c4bee0669345b7d876dd9941670", "b66887b670dcf21929deb07df494e9c6697e2ba13e44ac2065b5811372a6313d5e6582f5a04d04590931212d5846f692", "fbf923dafe6255004725bcd43aeab00c2ec9880ded052df48cfcff00375cce05d38ed67c4d43d428bfc276377eb7d5eb", "cf159121dcc4fea765dbae01ca7558e728937317a8ebeb4b6db0f723cbf1bda5f22c3c8cb3cc58e70d54ec48b2a49485", "e7fe0324e53462a7efa288056f3fc1463a909a314ce8b8768e25fe30d6f42203abd270fbbbbe186c802996ff8dc017dd", "a71ed046b71c2bf82c0534223812f2eecc7db9115e0dc0fc649a1e796ca13d973e42857c2d9e91df6f5fed944efbdf76", "8f0d4c230a28b5fd1e19d389a0adb24ca93d4b2796db8834500434b654112145e8125759c9ff7904880dc8f3c0c93eed", "d36241c8e6f90576cca0b412221a68c19a79c2d5e97e68d84a5d8f96b130a4db901b3ff930fd45af2ba891bbc525d55b", "aeb98907ce4e7073edf24509050242c8e0f32486a40c14632aaefc341c4a006af57347ff3d6c7adeb8398d7370e44287", "a4ee6269ba1687838fe2e155f6f45f8b483f31987d1b6d7656031004544b8d8b83941d1fac55d681061e9169e261744b", "81de095922e2a683a32ce538d5e8d632dd11d28cbe4e184531d7ce1ead1b6a81a2f8e2fa71598ef0c0a063a5f7d8f68f", "6ff1f1d76ae9b227851aa784c7a12f907e66a96f93fa72e3875be110998b1b7ab7a5ffd7ef68fa5e644cce52ea110372", "938064a26c077c41a82e6d3be075c32cd5d7770c05f3b8ab0cf28ee96b8ec2673b7217204c40c8e49c7da15b4c1ca4e8", "d80f8cd2376af5ba4dd500879f3140fd7dda60bb550c2b3e046c6254ac64a30b02fa2c1da1a02506065dec21c8fd5222", "df48322e33a00285dfe4d2145a8216d34fad6fe2ac8ba0fca8f72e54ee23173b912c32599f689f928e4257ee013634a", "fef865cffabf179525c8786203c9eaba5772a5a070a7f3ba908ac1ce5a6de5febb5eb316f270fc92120158756034c9b5", "6e071c0713fe432a8120329f7c2b6c148a4fbb314eede58b7cdeb48f8ded8d63424a6ddca9f75175c4739203936b1c18", "a62cbea952a874b706b44db4b4977bcf347e367a60d5838360817541f7af781dee892fd092618268d4fc3c7c165fcbdc", "4699f368cdc150baac713525f8a902aff3ca64afc4fd3794fc0ee8ed8ba822ba6dc334956fe30999dcd798617cb6b387", "10bece7e69a95315165693599451853e8dd94c19858e7b73ee69386ad6c9af5d4fdfd3abd7a61e36a43a4a30ee095d78", "17b2bc5d0829b3f89680d7b5730559cebb1e30ac3929a1c41ebecaded10ee8293e99a030e26a86340f110fc1807d9c6f", "2b74b64568b66db716f25fa78dd7d67761cdd4fef6e1a102c7ed99268ad5564334b3e2f871628acafaa8fdbb1053f977", "a915e4359edece8eb28a286c3f841ff30a059b09cc988c6a49386a55b8a44650de395adca0dbc6a73fb2c04aaf3e25df", "2a5846ddf33f55e2475d3d3b61273ca0220246510e3baa2a34c16f2ba6c15f803526447967f32bf6ebb169886e78265e", "6af342a5a3b68fef2edd81b1c8c85e9ba22f0d0f2e16b88ba0c46b1d6340555995e25d7a7e55829643cbbe987385192", "8a508daac1c8dd1bcb0c4964895f27fb7105c4b6c9db3422880c6417d8b6a3e760b78ca13d8564f7e7314659459c8f33", "cc70522eaff724cc38df87ad0f37de3b87e2c396e95273211586b099523bc75fb097405a0e2a2f346c397d3d8104a16b", "1a4ce9ceafbfe8fb346833c3b5ad2f2ee1618768a561fafd4f2365c1182a18c12d7a747aab5a13afad70c3d1d461cb4", "53177b1cf94cccdb4198782383f5407ba22eeefd151568b88a302a7b94ab55c5ebf68f05c2820638336360c8eb1ce3ed", "a31a7605b29e6f613b7d7c2a6d822f734569d542999de6cc1f4f2ea1eda920bbd60a1e632357f29085c3401a01ef29d3", "34393302a13ec6383be0a616c98c761cb78707c391530475b7de8e97e53cc48d3ecaaf24a6c2a271952f3189dd1191d3", "a160ebaab58bcbc40e18abf4c87c098880306007822f5d169f257bf3db64cc8b44d7e5dc2fe9cfbf5858593e88d9d24c", "10c7ad201142952b9553da0bad01876933e0b271ecbe16160b73fd8f23222945883e1a73b2dfc8c818b324c6b7ebebf7", "2c2d3a3bbb7967c1b950aea6efed2ec5b1671c8f1db24041ac3cc08caf686b70418c51c826aa73c850ed4c18b8557251", "a60e9e54c46f4a712bd2f0129cf6f2ae761208ced9ba0638fa8dafee90fd5399b0dd653b5c697bc93de1cf9e1e5eb933", "4b3c01bc2962f7d1b8de33dec68e548cae8906c32f029f350f4377ad62bc19eea78ce4e02753a2b87dc58d6f56c564a8", "8009a16b518ba4da01f7be71e36db26399f8214c2e552ffebde46458687bab5777c49fc829596b01b99b4585e8df276a", "26bcc9dde8a648ba2d26435ceaec2d80ef83d22400fa39d7c160480cec66470b1b4acf1678d0162aa75390fd392d0145", "5167b1031737f3eeb04613c1a9f3fc861f1c6a03cbf1810f49388f1bbff92787575fd381eca39271a937fda545e23bcf", "e0b07f26c0cf2bbb87f0927e0212ba4e5afce37c876b20a7eafd0dc0350e7d9127a80ecf3b00e7de3c3f30090053ed96", "545074612f96e62355069bb9b45c9ea246f25dc5259a92d7ac6c5c06c41ae9026d2912cfe3a2c91f97641fa73bba532b", "b133ed15af6493dfbbbd40a56c52c5bdd9144d8829ea7ada7d9226e45f10d38e1bd46c8b58faa8583f7ad5b101640b49", "feb2139f1d62532a2744560d097328da4284095447d29075565d3d214f4bfc3973f8173f580c3c2a3566aa8f7fd7c11a", "482767841cdef45b9e6befa2b3392140f96e049dc9f0509f89cae1073fe79e408cb4443fc05b0a9fae664b9b4b93bfdd", "3f327ea61a2a90718fef51eb6d61eaf8757b34e58bfeb78159ae72861212c52b2515e0703ec8f244d8d1bf75dd6f9fff", "9e391cb3df70bfe6c58e6181b030b0402bbbad732c3b269c0741a099f8e4732d1848505f5edcb0757a7750e0e02f2c5", "9a8c6191e5c6bd7b9990a4a8fd04d100afe4478ccdcdd9843a6a2a24fca219749de58134fddcfc2c589080aa56f17096", "4491d60e0de7ee7c184d340550dab89b6e5d1c5d635fc6904c9a103a6104dc6adee7a132d5609508c9d06e31038a4e54", "9e5e2df3be652de8e7d7416aa124624fa87f19a15bdebbc93037795c3666b0207a4a56c38310a59ae366cd3a7206c9c1", "e258322d4b7d553dc44e0cb3139e2e837ab11925074442d083008a42b3eef70c9ab281dd61a16e9aee5aaa46c218c23a", "665b5102a30c3a8d340af560a187ec430d14695516a5a01ed84c658c126c7e6d566df1dfc064de81bc48bd20bb672c8a", "e62a896cbf1b5c531830d07444131bb57a0972780ca460da8a589e58227aaa5fdab574f970dadbc65fa6f5cef6fca942", "bf3165a4eea6c172a213190a7e1c12131d9fb426c9c8f0e204badc557426ca6337b2c2182b66900a504386a17da9c975">>,
     yy |-> <<"e5cffa5932c88603ec0344405b6345b0d6739609061e5562781ee3d913cd0438297228ae4458e45d6f4b8232532d9875", "85a9010c94ee471c166890b193ba321fa4845720ab3890901528e9346e2616da656be70408bdf855926a579643929eaf", "1d442cd78920bd0133f1bfe09eb85591e56333445b8d80d4f3e6e0134d1cc071ef59ee5e4df2f6983906f4859b859a05", "a51d7649a9af532f53c03ee54373d70f0730721af7a443a0991ec51ee6667a0857dffc9d708951c64c75ce47f82ec791", "65f35a14a7affda8fe81f9719f609da75a58c4addf819c6d477f092a2e09c16cd66eda60d070fd31c1d7c4b47c4f7789", "b0e298a42aeb6de60efd84739e4fe8201114ee19c4f11f800760c3bc4b1bd3b8fdc1c7248faa41bbc1883f84ede65d34", "8fdbc06aedf170992d25e4fa8695802a7d9daeb3c1dec92952a87d08816bd4e6faa6ec87b86d45e58414bcbe3ddcca2b", "8b44d10a597b0efcf460175e8b5becc8aa1b5547c98dc4c1cb02a10c1bfc4a33b4dc48e64949dd3f232c423574d8bc", "4477d70526d29b2b7b19f59cea16ac53f3ac55e1eff8e5affdf6f5eb068120a493f691f0b774ed582478e40214d64c90", "993abcf048dfdd2255fc371c9e5d62eaf26861197077ce24ce4f9383c18c5a4e21be0cc7f5bb4b6d05b880e8c1701a25", "1c98a61f26323f307fc149cf4bacc6b91b18fe9abde912e540c78d4999a0b27a53d19a5db043482acc596fa5c9ce93cb", "1d6946a7141db2a7f61c10477167405212e9b7d8012ad56fe41fa9e1bcfe9b6a911eb1478bb9636550cc0f00099778cc", "95f56cc6bf81b0be13a7f066f2810a6306d6cc8c39e658ff2b59d40cdcdaade304353a620d8119341e7702e24456ec3b", "4410f3232e5ee5a862fc8016417aa695d26497011cbf38bece061fa3046f9beaa2829491ea234c8bdd8bca2789c93e0", "ae14f3acbb19714cad9e0f2f5ef6e5c13cb2e1e319cf344d24f69b0e064f2912f38f1a569827dc3da8c92e2a2aa1da3d", "806ddf1119d66e2c1c161c8ff6de36b302d4f3a31be7389dcd39292d54145e0ba6d4ff7b7c7aed8a4fee955b9b9de113", "c696cef9753ad95562c91f62c95af0eca02393f21e2ed584728bc921c8edabe7fc36aa9dc81423085b815e9f29df7304", "a7aaca3eb07b19cdfc3cbece88a73973a929412cd973bab295a7a35a9d3913d554ce11a8e5825b1a71dfbc7294023e54", "13a6b0d168aae9ddf3cb35d705c2cda87ab7165c619513ed040a70ec4df24e451cd3cf0a63d72e0bdd3d7ce2d7d18406", "51349212d7a9f239284ee70006c5e8209249506db61f1c3b73652719444db6cdf45c757fe1756fce2b5471aa630e7423", "98ac2698cb4e1ea18b9f36cfe29ee0cd829cca885cd425e99459540a436dbfbf8479a44c84fc0afab61fa65faa4da2fd", "966a757876251863b0963f1b593f4b9fab24c7a96d5655345abdb48272aaaad7acc860e62304426e01023fc44d147fe4", "8e07cb4e2831c5c3910ed15c783779cd39a4b30dd08064f94bcda3b5ffc286f22a8521656b2d9d55372d5b5fb123aac8", "70dd2a6e6f0d6559cd93b9a3c2b492245ba9e1df6c280a76c17b3e7296459facd1679ff0b240c279bc5281c06e756f3c", "d52ded21423f8e2381f738ed23b43aca7885e6d0945c1f867f8345c4ce7359d0d43c3048332a0f5c638ff35b7b161395", "7131893999f6ec63288aa454a410eb54a6e8c683410d390e9108d4e6bfd5e6bf3f50782b688baf04734644130507ecf1", "1c0a129cdfaa921287d390a97b2e89f35dbc9ce19b68e353b00e81ca8087f13bc9ddd1fc494081d4382313684590295b", "39e37111c9fc246eaf89fce14fd1a7d836737ffbf6f1c155bea6a076adf908832d62375c40201f87137afa0b966d439c", "ac3e9a0d6ab16dd59c14d4ff636f9ebae5fde844a3bd332acd3da7292e29d873948fd92d6802d46aca84910f923ef236", "11e69e5590101b381feb019193943dcfcf2a7d22f506e4e5abe8a1e6c25bd7e37c0197993ae5312e58752260de42cd96", "7b2119b11d40b247ff19ad308505028caf30e54aee7763b3c3c5c715fe16dab0c522881026b1f4757d7cc0ca893f6596", "aaeda454f26e432ff98f5cce1d1ccf679d710a67a433734b8a6067bd98adc11325ed33633d300266965c576128ef2ca7", "c9887a8457462d9357d18a829bcdeb05189c190dddd17bc29cec3cd4568d8290f8517ba3a88d8c02b741673662570855", "acc61e96eff22a9e660024f5e9c8973bc46959609a4d81a2fcdbaf87d29dff3840dde4b63bf725bdf2dfa553309c1057", "3e5648d8a4215974f31a1482c03503feffbb16a5476eb7c9e4423f050a2f66fe54b29b24158ee0dabe3bc99d8211279", "5baead236630a286865fd42ca5fb7752ee22359d70e922914b9b8e9b32b30009ae1d587fba8005db292aabc6de4a667c", "b94a5b04227221cb6f0d51b5dac49ce976fbd6ed68dd806fd03e75485f2bf7cb0b6ff0ded6c9b73139b72cadd91e888f", "f6577200cc61c7b9785c736e745954aad31d992f4f06680acbc644cc9b481db0140a7f4f3cf9f2a7f4992c917cb59140", "5c859e4b581cb6af1fe31c09b14ffc66d88382993603814de85e23aef7950339df3aa88bf95da5618da9b1f36f0b24d7", "ada5e33136b6431c2627967b34345fc31d808f5fe334f9c8440ab82ca4d0beea6d3cecf215dee9921cae57ba7f5b8e6b", "a9661679aa68c10f57e265a0e90e433a2f427b4a58841ecbea1d77ee4a94527e1bcc3ce5dbf1deff4a9b2e90296065f5", "dc7b2fb277f59cb68e8a682d0fcf1b0c36967ccd4932e64b2f7d06c8aa5d92028c041613ca99dc8996662728b2cf10ae", "1db309a417c12721bf40d9dacd82aa93274e4ee59fd8453dc7ed5bc3f655a54c9d620fb8d0f78f2d469ffc1142e2dd3c", "4715a257d98a5c8576c340fa457a5fb9c643737079058cadadaf6b94c6f79166a3c66c13fc26ed47c0701fc443698840", "565bc33c80c7fc41ac1b5e676a2ae4d9cf23474a504eafd736ad28581d26c91eb679853bb62afe04201d346d4cbaafc4", "a39937bfa420bc8827ec604d0f274a15d944ae01d36fa9c603c9296d2679ed6f4564903994164b18b7ff16260b94322f", "50adb9e25cd58365042c1630139a962598fff4d4073d9764e43dc8b957d07328b5021808b786a8c56482d1d7d5eaa995", "8cc31268c6a83d2c79bb4b5660a2a319367ca1b16904429db8dc92cbbc5513b24726d54862c0e095ae4921d6da1f348b", "aaa532b99d8a5a963dd5cfda48621083e1fa44b56aa671d8e1edf6e0d5cdf2c152ec15ed1f08502f0c6212e1c25a1b81", "f39016b0f7b5e108945e5c2ccc4d539a363d3f3743fc51fcf92ed93cfe1af6769bad8823e83fe19645d77ab601a7ea42", "e4957614e4dd3885c7391cfed43d281533be7516ea4132d283c2d0b7adf22bf9d6350e85e34852a93f8bad6b8dee55a1", "1654de56a9e19b6f068080ca94a2d0c4705156caf4895bfff4ebef1bd491fb25009bce4d5d065f6dc18af734a0e4d48c", "7e4c9d60050ca67eeb032b0882c4e277f1ebba982a482d3f140b7d41e9cd5c6ddaeabf02a572e51857603ff24802f0fd", "61b98c3c84d635586b957c79a96e67431feaa53f3b4e344962b686426974bfb0ba6c619141df49e708401e9a82e52734", "472a3c7d882123d6c8e68fdfd75f646f85983abe37b007e4911cfcdf54aa0b49f24239c77fbde0f7c71121a45bcf853f", "67bba246871483b920d3b3355ae2376339890d72173d5615722c8a88c02b3c6af410b754526e2b1fbadc0cd73b0acd6a", "cd7d47f9f7b44e8729d701983954fbfc6a696596c5550f34a7844c1c3788fc16f9d349972f42196768af0bab8f8c426e", "74311dd4620e8fb7cb0149688a9c9e7810869cbe135d99ddf4ae5f16b69539e0ab72d0894047c1177626683ed808636e", "b97fa937be8a34e4726e5fd6fb5b697e60f5c81b1833c3d48c070b7831aae1f09a164a75933222bbe33bde21c7fb4b21", "af80077749c453700a1fb0c04f9040954ab7fee86580533a9ade5ecc19b8db2eff487076de626366e3d7eb70a5f036c3", "9960a6517faa4275cbffc2192fe5943d3c48cb0e50f7f711fde58eb57fb80cc89d40ffea91dfabb66097d7af866f5c1c", "a18b7f6f8529b5f5265562d1a9fe3f1c526a11b9f6e877175f188cc075675b5b73a1aae2365c260841ec6a4927545863", "d6f1c1bfaa6967e76c9ad6c94f061b5f98beaf1ff79b784a8f27f488823f9ae1cacbd3353e3543eb816eb35ffdf193f5", "fea62d037411c56664b9479448c55bd0f5f90d2a3b325d5c1b7861a6882b5f8c70e5b43fbf7e28e6caa761c0b47f3451", "1d40dc7cf79a059d1379917828652e2e9ad2c4717b5bfa9b516a14bdc02dcbe0219c2ac8fc8b5c7e17bead7b03650d55", "c0123a2d4deabb45f0643b8aa6c9fbaafb8a23650e7bff98f729f666c6972bf57ef06043dd9a3e587a5961bc3771ed22", "79a5266353d76ece5440bc4d919aba340114e6a58f331f0b59e967886c66f755ddf6dfdd8cc6fe31b999441af46503e1", "124f34b5f8ec855981d423db8432aebaa243b346f0b61ceb524fec0d8a89cfaf8ee4e7a1960ef9b817ecbb5c13a7daec", "42c5d734b8d5c352f614c38721d3d6312ffe4bc050910cfe4573de6aa70eefa3ac316406880a9a2a2f662ca5c2da4be5", "9ebdef05cc97d2665cbc08de8982738a105ea73cfb85bc956a443401c36f26190510efe325e25419dd395487ca476825", "33c2dd2774aeb0f9ccbad21aa334593c3bd7a6f5251ed82ec22fa01709713b1033d25f7865247311b6c71133806b969d", "c58ae36f92506d0a8f211e4bae8d60bedbad8fdf52d5a662fd41ca0caf58d58415ce9baf3e001ecacf98ea91d0b88863", "3ca725d3ebecc9182de2cd82606f0dacc5fd848b442654740157872c07ef285a95ea3a858e306a1e0b01f66a7dbd727e", "fde3eabe41e4d3f8af4bff9cfbc260ba079c6d86b380bb488f16b70f44bae81952facadad303fada96aab345213077a0", "1050370ed5acf5e2bb1588391e5320f45811ca88cf49aa1ddf227afc7b7f329cc924156169523f96b721935d00cea5bf", "4fc27e01962614422b9550f51c68ff08da24de3c31084745c907c1468c88065bba419ede8a42879a414bfddf4b725f08">>,
     xx |-> <<"463f90464f094015e02880fe21ddd8ca42973b910f15feece828d9b28802f434d0023776fab2394cd0ce3eec4439367e", "76cb2ee2b7edde83c515a7300b937a9845b1a82b26e2e72680c902212c336ddb7a5c87755748cb2982fc7a4ca6220d2", "69a4c13453a7d7524301ffce3e1487b5f51aaa0f5f755eb0403261298d27ee53965b3ecb42b36779695628dfe88e39b0", "20d06c8bf1ff5e0f4461cdc538a95605c1aa3933b69c277f4f7add1e57e6b9fddf2f9373ed303564c99ed42ba3c548c1", "b3e3d62037f6158545f976f772fd52de1707512e33acc674ffffffffffffffff4c1c29df1426145a82107383faed0c4a", "9186cb765211ba914fce2c1ccc2db195b59f577a21784037ffffffffffffffff6e7934891c6779f85e201952758aedc4", "baf5cbe2aee69b9f08a90ca94ad580a0ffffffffffffffffffffffffffffffff450a341c9623987e487057b867773e98", "8542058fa310aede74002a0da7255050ffffffffffffffffffffffffffffffff7abdfa6fd7ad4b91e8ef27146a1c8b31", "b0b00272d6b7ef52ffffffffffffffffffffffffffffffffffffffffffffffff4f4ffd8c78980e3a294810adb0b00273", "f0fdf68b217e9afaffffffffffffffffffffffffffffffffffffffffffffffff0f020973ed836e79de816505f0fdf68b", "fe00d9f0d8dd27f36b045b9cc3369bf43ce1441ee84dde1a56692b3ae6fad28b8ba8c6f026fcb80ab9f9365f43f6fb6c", "a0e322fa6d05e870b3f307ad3e12c6edbc65464268d179120355cba4e080021f8267060c4cd3b02e39c3cb7be64fe6f1", "b2d4e9b7385b1eb4f4d78380c7f15976614dd071671810eac27531f297adafc2039e2d117f6c367c3d699cb2aa3534df", "b05bf8e5bcd3a63cf87c5bce0deabe0d95bb47632e72855fabc3f7c0537d66dfcd3f7219e6ad186d9e8cb58580362b9a", "64a72b896646b478c2a67eabf913c1daa31889e668ae550611c41beb273bec8a39b2b30b3fce084de1ceb52b154ef4be", "17cac164abcabe5c5774d0c82a706b9bb7842b0ca794438bae8a0d7d23aa8f9eb49ac77b76fac1503750b1ec04103d32", "95ba8a92eb0fb44b199ccd4773fc930664b98e7abd27f0a69d37d5185385265b6f2eb13c5a5c69c3d67a270fde5e9717", "c2177aec55c00d67689c1753937275433c1d6763e9186a2141bdf3ce66ecfe5183f6897dfabffcee543b608792926f2c", "6cd07d4d927b3c3af21061f9862c21fd9f7e9cefc01688ced4053735454d43bc6e7a2ad439584cbbb418680f51ed5778", "f2432f0d7d895c6c213da8df59984f7c31addde272066e90c654380c11c156593c540b45b5ea03ad86ef89dc6e8c8b84", "3b86f6b546af58b844df362c9111867ce1192d5990e672b74abb0e08444787bbc1abd1a629375f1cc2903c44d062af83", "927ccc6b8868146f85e23cc423425623fb6e645a30589a7cc59573192aa10cc67ee759f20759e5b0348281ef8d4e7ff8", "9e4415c32b88a5ad33f04eeaf97e083a8ef808c046d348466ae253f504899db9150d8c08a6f0ae71c970eb4af6b3e2cf", "596dde13d6193ff67a754c00f92c401d7ac4a23d624c3e3561359ce61915416875047c7b00efe61736da146a13c0cabc", "503f50338044336170065624ad1c75ead73de2063323555309f2ca73202ea1a7eb778170ca951fe68ad8aa33d3818067", "358dab71c02e8413d1c7099c451f23e9d4db7767080d21c16b4af88c24715af0d932a3f75ec157dbd2b34d53a44d9761", "6a1952464111536df3c6bafcb59518782162e8af91527edf307bde9c3b51f19aca84524dbf6115746b72496c19bed9f4", "a039396fcfa901db9671d0ecbf17ac3770581c345670b2dcd235286ddf0b478e66d415a904d4eb2c320425e1da92cb2c", "25642230f40f8ea0b4cce695857f59e04348a7d1d0fb0e5f1b7af39c383f0025300f4436db98ce04550214b3570c9d20", "d7426d527f02c8fac08c8b73900ae7d592d281ffa8fec6fc65c439faf0604aa04e898d0840b442562b16401436accf0c", "a4763b8eff071632721e93a85ccbcd045def717f11072e66d9a60af5277d9984e723e7d29987676b333c98ba6a25967d", "cbec0b4e88110162bb26e4eadbf3da234c52506a3e7b9e9fe25156988e0d1fad98302337ebbc7cc0c74b81be1bda2265", "dc780605fefea084962704add171c00d5114da71461389b7f53731a78a6be8bb8e1ac083691a3adaf8424f01e430810b", "eb09a36fec922681fdf2a35384ac222c7cdc60e594841bebf23562ed05fadbcb26a33bc974689dd53b1026b8cad256f4", "bf4806bfb2ba35a05ca3017389adcfc7176dfd384fb228c7dd58a58bb06787e574bd6d9b2737985c3838f423148ce0eb", "109446b1590716f0d0013dac2f196727843d7479c8bcd221965b5759bec8b5f8bbfba09aad82c5b907a0d0e95a579b7c", "944e639841a4d2fe744d590e727368e43ae30681f7c57f8e06609047c20f0d55e1173ab8ac86737855494624d26e6871", "1f9b86b70ea78ba7618ffe8d7e15856370f67f8ce1f1f3593a93937cb84d66acfcc2f3e18acb7ed3cf47c7374230ed58", "fdeb29571891eeb6aa11db0271c39b19a8e32a45e89cc20663866c5fe1b1ca204eb42d2fd0e6f076374dcb9266c3234d", "e55d14ef60a941b88b5d532b8f5424e4ebf807e43ebc098f67be36507ebb0ad1f81b2cf2d6fb87233c51e467f0ef577c", "475ed60cf77df8df076b8fb3b86da364365cec09ffbb2e4011e32361620aea75e417ad11c00f5d690116776c8785a2f4", "db02ec5171bf686c8c5034a1e0e6807526f5868f2fbbce816fe86d2cf4c8f95a94d2122bddfd2ed201f062e26dcc373", "6426bcc217bc3a574e0b3525e3b34421059e6f2287e79bc56276e5623eaeb1a59bd9433d841d08e59a3890823268437a", "7ac8804a1a8a928ed7ba7ddfe742bd720ce40bafd4724863179ecb6738747b4485377fb56aaced260dbaef90bbcb44f7", "a5019e7e76c0ca42172e78b759f71a10bab2fde7c847af4f00000004000000015afe6180e43d973e7210bd0633dc0bb5", "6ce5fa064715d06ee4bf638e597590c3d1d363395454ac2f0000000400000001931a05f94c043589d42acc022eb105b3", "a054fa38724caed16317e44f0ac0c2f4000000030000000500000004000000015fab05c6ed5e56f52a9b6cdf327c52f4", "a7e24e4e8b70583d9fdb134ff8be568b00000003000000050000000400000001581db1b0ccad5972d4b494720f48e472", "c6a7d05991010085fffffff3fffffffd0000000300000005000000040000000139582fa5a8572f1f6efeff85c6a7d067", "1e7dcb195540f29bfffffff3fffffffd00000003000000050000000400000001e18234e68c414249aabf0d6f1e7dcb28", "9df3a5dc3b69c76673d847c368b41fefb396b3b0f264aa5a2e045132040277f717a6a2d3250352b24f1eb0cc0a2db56e", "d5d66d25b837558290494e3eebb46af92aa416995e398199aa16b896aabee7161e8f532c10c89a385655b9200449507b", "a8ca622f76b2bdd4e3e146d157e9e1858d0f7642d423e859583232a334e941dee005c65dcede679993c782f8d28a98e8", "c086ff17ae8ff5caec2ed0980b7972c00ed7ecd09a787049efc023c2c516c3f08cafb2f77b945b344fec89b5665359c6", "181ee63d74427d7a484554abd791624d470a59020e5c9c9db39a096d908fa4291ea3b934e21969a5b1f2fb3830005d30", "5dc534a3fec90b6baa4e4d66289471f3919a99ebb5c75c31a7f1cd79bc12d4810a54b9202d824373e0f92ab2acd90b09", "4c6b4c8ea917925ae09780299292a012ea111bba17ee7dd49a0ca214bd71d99224003bf91c2fbcce880389417a883f9", "6e7812c18a92f4e275a5e01870c6ddf95222840d3f5071a8bbd08c38258b19db592ac0fdbbd23f2bb4a471d97545c7c", "4149d6249cd6d99bf12156258ba03204ba6a4cc6724232be64434c695316c356202b72798ef8523df3c2452d512c5e54", "919cabd890553f1ed4d3a0c6197f9c44d8b13d307eabcc4556266036582b449e10f8e61976749f3c04757a50841561ed", "815c222059331b848995cfbdcd00af6ef7eb3a7feba9ff5a63259c31be7e13dcb3e48edc67abae353654a08f886ab442", "7817b541d7f84116fdce8a4a2a70c1597d75559090c1d3453c81835247d39b7d53612cf49036d77d55447ef4a8726601", "eabdd3b0cadcd58e647e62cc83b677497cfad8a00c10f9de13271a9ee61d46b6be3b06d4a8829cfb457dad84508ba78a", "e672a574144265eaa9672bf31f8219eb1e568a5114eafc14612ff1e39da47e81727d4dcbf89ff72f8b75f8338fb54a43", "63e8d1dde379bef5c48c503b87c435d2ab3b3d6abf0b4593171ce0a04dc813ee621f225b4aa715ff25230cf21b691f0f", "e9af95ace01842674462d105c989d1da866ce641304877242b81a6bf741bd01a4c102b19fbb196bf4b3fa1ba5a9462f5", "73a247db57368bb512875bc281799f6c9cf63fe9e0a62f0a8e4c149f8d308bdd42dd1b672c4daec18e94e3e4b3b2bf67", "2da6debf6a4f5967aa6a1f69ecf27a9599c7f1afac3411cd9654495e16812dbbce4413a2563f0d06b3e4dd48d523b8c7", "ccd76ec36a53d68ff4ae47e374ca9e6028b1c96c61a8a7e71e73ae9595737c75d6abf33fe21c5f5696a5573ebd7b5fae", "338b7325d7e6235e8d5bf96d37914fee6cc9604a48ac75c46188e0bcd3af2f9ed4a872b50536ee98361050300a301fd9", "8dbc5b89e652d259c8a35a41d2d43254348254e1d575dc8434bafb8e2cf326fee1da72e6a11ed7358833257fd8d78a24", "178766e95dcf9e2c3fb6b3e3228399e6f9b3cf2f22204223c0aca3e0168391674e385579c37a003b35c68a378487f7ad", "1e75528c54806cdcae553fcd2c5abea309b05bad502477432de10792af749577354146e127f74c87422ab8134f3f1307", "ff1ed67c9493695ec6844c81216f859e74050d43bdebd5de9cff633eb596246538a68676fa786804c064594d0d4b83f8", "d6b9f051f1d5c4a64a4acf8f4c78861ccea34e3789d1bcb08d0ed21b75d69a131519fbbe8b11b0f489c55daee40b4d5f", "cf566e67c6838c54f103bab484fd17f0723005fcb85028621b8a72d709c183e7510c83290a27328c55a33e4ee9551d0d">>,
     xp |-> <<"4c5fdea294655478dbaf8f59b78db274cf88eb76ac25f097bce68732952924ba1b1afd3eaebf01538feb1c2db9229cd3", "817728f6cbe56e583b5b6123b57dd8d159a22e1799d1fc0c89a73a170b186acfaa9bafcee730d17af8bf3084909def01", "d96a98c8cb969c563e634c94b3362e72d439fe60fef5c1f4679c778671b964eb269567365afecae0f6061715e7d11dc0", "5dc80eaae5b8e74650f62cdec64ad4fd9d5a1ef26c0ada76cb10178bc15a56e7a237f154bc7f0a0ec950ebdb46870cce", "3f35ba4991cd8a38508e891462f22a115788d1073b57916dffffffffffffffffc0ca45b62efcbb7e1da3ecb38bb50723", "88aabb22681746b9b739ff9cce0924cddf2c73cc4994c03effffffffffffffff775544dd0f3dfe23e0aeb9aa036796b7", "a8572d839649ec68ebd9e96a3e2bc00dffffffffffffffffffffffffffffffff57a8d27bc15ee6137ddc2a2d7e51840a", "f06387c804593a203b565ea418b20afcffffffffffffffffffffffffffffffff0f9c78370b433e17c050673c9c5b1e25", "ed6622c6ad42b770ffffffffffffffffffffffffffffffffffffffffffffffff1299dd38655725c852bd488fed6622c5", "76d0e37539c902d7ffffffffffffffffffffffffffffffffffffffffffffffff892f1c8a4f6619b2c636fd2876d0e374", "bd2e42177ec624a5f02f4aab3bf4496a47c3c31e7960122b8a11c45954b89ead3c4861145c38339529372b012fc0a527", "ccff7a89c18f009d143bccc98de151941a46d753ca691b9e9b3954c43499020a35f081ba2625fe32dee9abf3dca6d940", "4f8137488d042d1aba4da4c6b0e3a4d0fde27a96d119c40b4533af56f672c0920457b19dfc1a243a914db6bc69168d67", "3436e6fe53708ace00971a9135959054037c4b4d8c6d7edf05925c8104c908f9cdc8f3baf7f3e4702b93b0dd7ba5b79b", "e9083d6217fe884d99f5822b69efebedc05fb5f40db7766e8e9966a40a5239e559fd49313cd5a3f18be85f28dff9b255", "c8b9dc43b5ba2a456043954fe0c77bcab0df9049a1b9244a83ea0bdf99674cf78eb86ac40c4a9a0374c0e0f7bafb24ac", "44d6505292e978a6773603653ef25166c37e5a7219d58efcade6bf04d6a54a063adb9a313c9f7c8b0a3fc972235b568", "d1996ded48692eefcdc5791ae8dc7ff366f6fb1695b3bfd585634702f8b7341f646c22b09fa759b1a37b4e849e9bdace", "3b968d549c8748d16a6927b8b80b21d0a8e599ac24fc453b28a5b4dcc834c2fe784b5b3b77a9b0eb48d71686b507e24b", "20858749428bc37fc69721b61198b4a7106d878f739dd6a6d763bc4a2771169e1b39b12fc4f562611ee3c7f4349d259c", "adc034865be875d2663de91509dc5a1873a81aa09d87f92848d6dba54487da6f9fe84b106e5f49ebc182ab9fc31d8bf9", "1d430bf5b4e01ee197e65f521f9a914de08599ff483dc2e9c1f11c15ab363c8f29b8e8c2134ebaa8b70cbcc5fdb49885", "ce69557540126ad493ce67b3c23c9df5965068a34014f6cd86c9740fbb0e5971204cdf42498288400865ca50cfbf8e3a", "96bdc6cbc803d060d470b7f2acd7b4300ca11cb72c87d14a869e7a23aa78335edeb0ba6785e69078a2bd0943a13a16e6", "e9d057e8a9d316ce58d2044c9f8d6e7fef4759f21f8a55952731149e2888d6d31de9cce56c492b82fec60ce1cf370b1b", "46f7c69a8618a209ae18e02c7ced1bff51b75d60cdca3535010a069dd3c03ac3615ad675bddccbb413977d97a8bb2cee", "58613f0f66a687b401a9509a58e96d8eb55bdb15e5a6edd071992f23ead93e62ed1095478778a638ca6fc9f525a77496", "4b6b3780f3c0eaaf6a87ec42cc21d7bddc33db709a932622c706c558490b3e5a29e8d4d677f370ad6c9c0f3276255b58", "dafe5fbd0aa02eb96220fd13019b1d4dffe6c0e5e6c366f059914832e72880a024b5c5ab8d7b2d62b52865dc980b9d12", "a1ac4c034c791f58a609ae1a8c8f2b112a7f8ab66c97c2b5db8eda2d3224fce16e46ef1970de70fe61025474f422457e", "934bb79f0cd1755f0d70b3734b25c5ecf51d0e9ab785de94862f33e523c814c80b5503918feb6d21674026d96b56b736", "7cfa46f56b0df857e095f9f285270dedcb2d0acf7bc816db28c8fd201d3cffc11663c554319a9aae42759f6d15637ac1", "8a1534d117f313e706c23e12a1a38f60ec3a4fb50294da76984c76d7b24a497bd9fb0c738f9f1263e4f4cb097d9193f5", "75864e11da4c41504d9f5a6f13df59ec50e69952226c7fcca3d37fb09933bfb4c2cbd8b2f94249bcfed0d0771f4fb05f", "3da2047aa64b2296af43c9495625db35f15ac662b15bb9a8f5865843a5ae92e91509bc0db5acc7e8c82425b3ae4e2a81", "b25d8fd27665f49724fb34f1b8abeab88ddfcc5941bf855951f1306d8342b1335062cdc15e6d2cef06f03ca1f23e8d4e", "550d35444ab3e78f027350e44dc8954ba7de1cff0fe14c563b73f8111ea18fa2ded3511d47d233fb956696e208ab9d4e", "3ec6a55760611448004c7864fc71359e252939527ac22aca8162926ea7557145ae7cc6678c2c033fd450485742ff80ad", "c5008f2e18a41d18acde3da0e7985b936c0b3257282eee31ddee98a6ffbe488847f1a31964db3ad0694dc3b78b63d56a", "cf53eb01dad1773772442ed025ea5bfbe5933039b1df875f7648a9f1d0a2d68f420ef90bac4c1aad342ebcd1aeb8ad90", "c2b7a23919004f142f98892df7ba2e0459d19664995aa96eb658018cd1c16524509967f8fa7d4912b76727bd9b64eb05", "8a5639aa7c94cefa87ec0dffa8396794cceab52f4a14e68d54427b35c3edda333830a67a47495907fb7f23055a30c414", "2a1e462dc2a4bf53007b4e17d7b1a3b436027a353baf20081eaedb3faa0f0b8fd5e1b9d2133cfa7e3cdff29451f15460", "858a1399cb33eb33427231e643dbdc58b30d40e3a7d82a25dcf31d63240afcd97a75ec65af420131f259e2e5ff3c0559", "12e7a333a4064034f1e06667ab45d750fc856bf4e4f1a8af0000000400000001ed185ccc49121c966a19596275c16579", "d9103f5b2b2c33c4fcf38423ba452f2b1993d579b0626581000000040000000126efc0a3fbc38cded7e0481721d78c0a", "9908b96cbca0cd5dc215596978840be10000000300000005000000040000000166f74692aa5679348149d9385e6f5420", "df05ad0ace545f368db1886ac896e4f60000000300000005000000040000000120fa52f452a5f3bda3fa185e88bd3fa8", "cb3696328101cffbfffffff3fffffffd0000000300000005000000040000000134c969ccb3c799d07efe300fcb36963f", "558b3fa325d6d1a3fffffff3fffffffd00000003000000050000000400000001aa74c05c849deeb7da292e67558b3fb0", "f903710c60d64a05aae692e47a54233ba5bb76e08257cba638711b5861de00e6ed2579859d55947feb7272a8e4cf1fea", "53fdf581e0c78b925f542ed942548601c151f6c8c2a0997259d554903ca60c3cfac2a2140b9dc332004789dda3f7ed5", "75c98699148c786b9af417216350f0264d207c05b70563d5d2b55616e50998b385e5670efed42249d9a991c204ffb2f6", "314696aab010bc20c633fee88b322dd32a3f44eb1f8cd31fd732ec71a49d322107bd253d855dd00bf07067cf0d91d0dd", "396e9ffae312459f33194ef4517023ae382366dc62c7996c2915620e9f9771cb519e20c91ec022442515734b65197472", "4001311758b32d6ec4f33dd4c8fee6ca50f52c8c4cc264d97c116bbd1ceaf7159ee1101fb7b8672632c65a69239990ec", "4302c547388900793b681e9d38113178ca869f350578cda4f73045369b4528855caa40a2d67eabe6de19529181e6e0ed", "7228aee500ebea324bdafcd05bf4de053fc2db306b413e53a4d8a2e13ef55a497a6059f3d9f9c29d004774b22ade26e9", "291f8f2d17dc4205ffef8d9dcf6e283adfbdfe1f89803c29f62b0131c14a1db7f823b4c848f1d0232965ab8c78898461", "8451de6045b53dc5ef3a5de3ce3b744d8fb10dd12481b7bb795f74950ece061db68f826751fc6858447b7161798459cd", "e4a8d027e35fc4b872d99722547cd2e7c742180db4914be1895d4c08ac3c5bb05c6a07f9cbb0932438ec8bca2302fae9", "f98d4f9e3bf0a8b91a631e9955cf4dae2754c7e00103e62744f02d4761a1b6387e80186e9660e6bafa7ee28e4ef3eb49", "395a036e3175b51519bd76f5c96db4cbea2f5c0949338b7e667cb257ba44f4e56b6537210dba33c6900b2a39656ac711", "5b647f6dc5397f19249d19cffabd799448ba77c35b08fbd57b1763eed2e59a3fe4046a63c0077fc08d521f2131648390", "d8a6549e55e75bccb48a2ac39188c6e604b613cbdb308b2060a75f558ec57a5d6f0ea8570f3426d3683dbd969a162e1b", "f85ff782d01a2924bec348937ce7aa6e0c399a998f4f31a6e567fae770da511e19db4e6a7b6362aa71d2522d7308fcd1", "a83c6ccadff001598fa0bdc9f75f59b1393812e94144cefc2679cceb1b5eec4c447162fa705ac00417e8e68868e246ef", "b81532cc1827cb6bccb059494b01c07d4e94a6aed56f5684a8e210af5ab0d5817414a786d70be19f201b32b9c8d45851", "3bc21897a5d5c5d295a6aab3f35283e876c12952790fbb8ee49c1da59ed287c427b9f1e026787933a74192108dbccb8f", "cb7814378f663d6900fb3a53716cb9b952816f781f138d72515df1f38fb6c3ca716345f69a90b8b19b2ba02ee9488a29", "3067e5d0a6c0183f6a6f4caae46d5b20ec9e772075e8322b0415dc4b041b3fb3f6c38bfeda9adf88478a52140c8d4b39", "28fc07b69ad4b27bf148525efc9bbfc50c581115fb37b315101bba50ffa096ff0dac40dfb607ceebee236522eef8d9c2", "4469fe4d9a30a8e33cca861f7e1d42c2d7a967d2caf0756976624739e329ddd55b4ce10421d2377557ccef13113973a4", "708ba7a6940c0372b2c21af0e82d26643b533567e362e2165208295d011de5a5ca294c1bfcd933b7e617cae1ab0b562a", "494f62bbcdb53ed48c1b7a88fc64a3ad8801386b36650348e212948d6ef9a76273cf385b45a7ccdec99b52dbd6716f91", "ce097e50d3c8bfd7248c1657baac08054b13398105b01cff8c90f9d4c8ab6d7ed92dde8bcc0b1a5de0a5a8681d8010ed">>,
     xm |-> <<"68fa2b4e69660f1dfdd6568131c1ba0ee7ec4d01eb7310690ee4d8058e04adaf1ec7aaa253a435d398c39a6139621abf", "f51804dd3ca39ff9968ec68575707cb4df308dfb70d5b249bc00f611517029ce1c0d11ab2762daa12ccd9981e918c1a3", "93debc9db6e034e14aa8ad61e9cd655873e62fb72d4cccbc403b8101e741b44e6c214361b5410e80fe771dbd5f68a9e4", "4bd283a17f890f6ee31b729f38c721db75e383f383b377a6573b2e1f205d1d49b42d7c5e34a46cef9d5b7df22fefef28", "cc6dd509a700b8c0d4808659577b1c3499826e959352347affffffffffffffff33922af58c917235847ec0e6a072327c", "390f11fb5e8172e3b13b0eb6eac9345c2dc9f3153d956bbfffffffffffffffffc6f0ee04686f7b20f0437e659d0aceea", "6b4cfa0ed8f23f3cb314213be124aae8ffffffffffffffffffffffffffffffff94b305f0bbc0c6b473f99f87d7142deb", "2557ba8784e36e043268040d25ece49fffffffffffffffffffffffffffffffffdaa8457855c4d77448b48deecd02d1dc", "307be80164dd003cffffffffffffffffffffffffffffffffffffffffffffffffcf8417fe6aa717c19b22ffc3307be803", "d5b69f1dc505b74cffffffffffffffffffffffffffffffffffffffffffffffff2a4960e16543a9953afa48b3d5b69f1e", "f0b627d8ec6c022892008a98c774a897056fd4500ac6e1a7b3e08db9dac69d6af8bd5538139b49c77250e7079e8aeb61", "dd9d84bf6352120d767b8bff2fe60b0af46db4aa64d7cfb0e20d6b28d9cb85392f5466beac2fac8b1351a54c1769458f", "3d8ffe00b70c56d9e93087356fa9058ae67b6dfa04662935170c9efd015c01bc3845b43d008b5c8554ead35064087064", "2eee7d2979b7310dd95869cd0319a867938640f899839597daac4f7fd3d430e6b78f8bfd53ee427ca98455d868925283", "74ec1a982a4355e132d4be0a919a03e7912500557530d4af4ee86ebcc5c005dba95fb3e51c3c5b165e53b7a44d9d55b9", "f313f5f890f5457eff0540df246f1f600162bf71352d094caec7d90ac5971b2f7b1f38b1875e659b7b6d1ab56cd40822", "5ad1721b002f433fb862ad7b9a5f9e9bc4159b7fbe4f2e5b23adc2c506083a1e995fe6a1162c8652b89b4af1850b08f6", "caf57e78376cfdd313302847ce02b98a67c745547a7eb4294053dd195970aeafee5141ab0a2bec80c1f142b13d0a454f", "244c5b8560222d6c72b18fda58b89e5ae31d338c2f722ee1b694df9ed3cfb5925438ea3d8a2ee2083bc9adb2eefa5288", "355d284ce4d22524ebceb4a1253283ad8a42792a7cba1651bca9b8baa8663cc214b43817dbaef492253d683dd028d19e", "9ae5b361ccb9fbd949bc613454e34e97de5f1084f5058f5c4ce0b478d9192003aa5d5348335fe4c2dac27a80773712af", "e9b30a718f46a82cc337e0fd33e604a26a4fd31c2a3605f8868596afab7addca8ffc286b94576ffcc5259b57a9255565", "abc617c0113c2d420640ac5051be2087f437ad8cdc3f17c88855e1d2af7e75978cc2dce2b68b90649c1de4cd29370b96", "8bf94942db737157e19dbd91c3fe50c218e1062ea65b1bb5625b2eb5af04bc77527c0fcb761dff56b20da4e7a6af03b7", "ed2c89c09193b510eacac7fc2bd39f3dfad914285857129be8b1c4a5e653b04389fdc46d9a70250968130ab782f338ae", "abad8b8012baf58451b790f6a0b3b7e0b94855b0a7e9fc16a7122ad3718272fbd171a7e8c3a07a4ee3f4c65b7c77b642", "73bb2ab5018f0ebb29ff95bbcf4604f6be8ddf0f69e2a7f13b63c749b3e412ce83b58b5d64c62fd572e13dc91f925108", "2edf8c8b4919f557b6527727542e8c20c60bdcaba72ca523f6af6fd57b2de0b537135b377196610b9b82217274350261", "7df756798b4bebfbac0395ab1e950db94a3706b4e820ff1f434d23a37d8737a2a26b6a4d31862147cc834bf2f947b9c9", "3430768a252645327174b5a93abdce972aa521d8caddd2bbaebede7cb2917498b976c5bf9ce313bb5522a6acdd170bc3", "cf1d044ebe017624e7553325f14f9b7b0f694ec2cef4cfd73b05987de3141ac90d5a61fb027ae7e8cba283c6be44cdfb", "1e0b94a45270d568abf4341fd43c7667f9e219c1c157f86a66f049ddbeb5597beab4f0882c5b6239d9c4f87f0a040fbc", "d5fafdb097f16b4b7c6567c44199cb6e805ca22c64175a4c611d095ddda5cd5f3019ed0e89045b56691b6cf05f7d68e4", "a3fec2bfd51dfc50dddb926fbb8f3c7f758ffd11932d990d4a8611026f7aaf8f0a2429ab9018cc86e92bc5be9ebb67c", "95ad06fa0674d014ab5dc4f90399d01c4c1a2c185666b02c01d55af746ab01046f5039794148db4ff4a94fa656c4bd7c", "30c5bffbd32974cd78aa27431a5db7354a3d87fc235587dc7e5e0815b181c8b14b7d7d264f55ffc015479ef7d393979c", "6a9fcf6372583ddb3f6e808d716b11c6964d5cb136c8e600fb33ab3829ae9fb30432bef9c6d651a6ca3b3df3d7213f9c", "5341ee3ec21d36db1eae183ecb0cc637a3ce8264b8c25efef39c4ef9e5256d33b226cffefc9cd164e301eeabdda503d7", "536a959193e709931a08877c7e6f13d5c20d602bc4141dbdffad075e4d90936b159051c0c366a1da99e76404b4504eec", "5f130e8aa799873e1ff8fc896fcd9fe0d8b8d8d29fa69c7a971314d2d387325422be6b68d66a668b2e123827b7bf2a6", "ceb8f8b3808be369a1c90725785d1f5520faefaa33f680adb28ac4d0888057e522217eedeffb13ddddab1570b492d239", "3bb5ebb5792a784dcc4f82c0e625060b4d1acaed98530de9d4f58e067d23d87d727e4879fbc4afc6ba8604f0894162ea", "24c1d5b3f2455470fd7eee4b160ad396b2d5f19b8b16d3c4c12ae35229786bd9db3e2a4be8f8d5da103bbd43113813d3", "7b11d8dfd30db2288997c3f2752b38bcac82274636d4880873b44c18c1d08a0e84ee271fb1e074f6a35a89e47c4edc31", "51b8268f0c2f2c383d9369cfad3cf5cdce8863e7baeb02930000000400000001ae47d970a218ad37b63d69f766e7c6f2", "b3d33f50cdb7a18a1141ee17023d3d091b7de114faaee3fc00000004000000014c2cc0ae7e751f242106705ea0541430", "caea97ea0a3e890b99418f2b47c5cbda00000003000000050000000400000001351568152ad6df095c7fe7c8e9e33ce4", "d9b73c1f96142b95e7141baac1ae56a0000000030000000500000004000000012648c3df9034984982d7b8bf30f4c9d4", "be4626f0449fae1ffffffff3fffffffd0000000300000005000000040000000141b9d90efd1a2aeebb6051ebbe4626ff", "f97a78b9de47b19dfffffff3fffffffd0000000300000005000000040000000106858745283dd5a721b84e6df97a78c8", "9fcccba48d7d0e03cb508a251f96a5546ddc0259b62c241d7a73fc492f015a46a03233cf918cba8d6608fc0e33bd30ed", "fba3c62e38c57a69fe7c9a4057f44b4e7e8ae66ecee7b9c8da5039c303fab0a31dae4327f10e4917ee357507b15860f9", "168b51e0f0ac6cb9abb534072f85bc36052f16867fae271d7a4ecd2dbc435a7ee890a20719c2880d8498a5e85d2eb48", "e9925900cbe5bf4ab86bfdf88cd70601daa5d11016735f8fed8757ae776f8e6c171989940f7c031340a25e1d68978dd0", "96180f33ec4efc06b7fb20870321c8172b51157b7a5ff74baadf768e923f4e8b26b7840ff148e0c3cf65cf7191db7f51", "8822746b9cfe161b7851b75e78b4ed5d218a0e6fd7ed49c500710db41b4de11712f2e5d1684ddf2a781e9c388974df25", "28032d9d407f74adc5b75a5b8672235f621f917f85905b313b2a6dd2a083004d5aea9bc6ca29a6f22c757a348b982fbd", "5a390309a53b1849ab95c9289c072369eeeb678482efa1466d81b8fae5628b1f5468ab983c7c4dbeeb1f87a09fead0e8", "99643082827884086d611fb30219cc320f658e9cb5d36e9a1c0463709325ea52f1eaa9eef087fdf87ae330a4b755605c", "6ecb59507b2246c2a75dc27df2dcabdf916bec58921b43312ede82f3b72e59fc01ccbb44c70bc923b4d66491b6a437bb", "b1a748f60f3e9bcfbd933f9b573d71e041967f6b7d879c21d6212855f297da2997b1f9954e5a64e240648cc1e66197b0", "f85fe657e206b73b43bc31d365f8053a1aa355ab5b0255dba3e9dfa42b6659bc1c98c01a598845c22dcaadb5e4b0655", "ea91882868c529089542c66f27c7fe6556a7feb87b6b677e1719d07817c62fda226bb0c13b5a7ede73f33fdcb0c29d2", "1937ced6e73a9b78359f20129af444df39683c6d5db86f63079cb56996d74224744121fa1bf8eae655f57bfacc76e10d", "27d5a3b6412de72dbb048659084af0fd15c21dfef3afc816dd8814f221397e1394de884dc42095f2b2fc48853fdf10b9", "93a730152cbe2f168b8e52905a7438719e001b4801bada157b1a4a3874a3f0d85b6f9ddec9e34302550d9d61a42ec73c", "a5fb105cb5b79d007c0d98f972f28651badebc39ca5645842c8ea7d41b5d8e134e1eead9126bb9bc0bb5f4ac9630aba7", "9e9db5281945b55de893dd968c4335337d136ab2233eb1368070a666705f8f17972e02436f82d3322578d708714d291", "1eb5cf92a4f976b5204ce529bfd5e86ec66dbeb3b4e5afc0eaa353841bf482c0b3cd9eb99f8aef2efff0a0f2fe331607", "abf945faea09b548f0fdc4e65050bc3aedbfb31319345c8a461e9aca57505c0d282b076dc2c2f591f6d26b5d15571499", "bc7e4e7195537e322d0c9184f5a0c8a656c96d45e528ea10e36b4d107dbd578d9e11ee84af72df1205f74181fb99cbe9", "19d6b17f96fa1e1bfe5d0d88a31bc6c685179133f1489c6eb3761ccf2e85ad9d243e6412bbfa5d61afb0bfa3d4e36bfb", "569c9573eec0d944bcbfebfc4b68016a4cbc42668142d0510d65451cf3eefbddf3b22ba5696b5b203812da1b50c2a884", "dbb8d712c78a4599c25ce6fa00c6c5b2eb0aa8d40fc7f88c2ea1e62cbba1fcf363e9d495f89e194ba954115111b871e9", "caf819044ddafbe85f6f7c3041e111cc4101d117d092af2fd538d82308ba28eeb94d324c568efaa94f85dbecc314c5d8", "64db43246f984a85079c3835a010304e6aacd7122d57169e41141aa6bf5f65d6c4325dacab4a18e773ddab74bdadfa87">>,
     x2 |-> <<"c0c40945f33193055cf87230cd2c6c50490c2962ee908cd311f36754c16f11236d951747e0f5645bd96c9ec16488cdd3", "a0475ea8757726da4dcf624411daeb22476623739ce71aea0194acf73f395068985529ace344f14656729dabf632ef9f", "55405324d3795d950633973e42d0105d129b69ea1283ba9faba21c1e75d2a1cb8f99bc454d7bcab9388d9c2f9f01f0fd", "4aa45f8364674d8e66c53ed4a008b984f0be31e9bad990e187ef62b3c604c2786b713f755790b41868d95736dd65f161", "43118f20077d3a5edd3cac0af00e0cd8f936d13f5586f3b63d5bdd1a3f531da8242fe16aaa4628583e4d0fe546bcc7ce", "cd1b9a0116587051f4cc391da1ad89c2f492c26fade7280fe2ec71f6bbec614224f02174cd30565f3fda7ca709d3f2b3", "e7752e295cdd653ad90daabdba7a89a0e5f6936aea0b99503066f57ab4f561068d87533ef1dd0941ecbd8b83340d359", "37f2791da56507c0d3d27470214bf8e5cf5a062b7a12968d24bc978029eb47c29ba8876e57edcecaece68c35503cc3a", "ae398139065781a35564fc90dd138f6197af7e8cf47e2b324ec527d35bea5a56162c1c866ffa1bf48917ffc05ecb2bec", "410e57964e8b7699a0c20b6bfbe1e077262c0f0cd4f49616378cba3928ca1be80ab05e0bd9f10b4a3ed9797d30cb66d0", "db077112fe553cb7d461dd30e1d63245de5fcfd0889a5e826c66fa00285eb861cbc7cdaa050b6c10d6e98c4d9836b1f5", "445272d5530da96e42fd07aa2fc7ac2eab667f2a6f8dc4e6404e18d817637702b824acf2c9a34ddea14802e68a1121b5", "9740cb26ef4559ba3951c46b96ddad2a180c993d5442103f04b8382869420a038cde973605764d47e2d27ad554a755d3", "178b784800569b66d05aa96ace582ffc8f55bb396f9084a45d272a2430154453e82f29cb526f160172744a6acf0b32b0", "f65267943e360e21f236302fdb109ae00053296a20aedb1b387e9698ab5f6f633576630aa0383402c0a9a46aeb8838b", "c700f6630ff0f254edf2b437fb325a7e9f05a6ea768ce34ce181f07294f332b6fb09282f3df520cab72834ab8055dcb9", "93774389c2f40a64833b9021fc765e9544ad3cc7bfb5fffc9eaa4521c3e5af53594468b2998c9f33c8fd880d1bfbe0cb", "33d9118911812aac8fffea7a9bef5254911e7f0bfe2520cdbba5d22ccde62a2452ed8d1fc5b4f7c169a9c5c2df602ca5", "b9e3f446a882cbbfded0ccab50de4343b7732270a29a8118804d96ee87dfcdeb1f4b5b212faeda0c7917a519060bb291", "c2d7b11a584638ab7c3170499ba6eb574788efc7408532eba8f08af925352675c82fc8b858d0646450764b6a169df13b", "7fa4213b41b39b0c6709d9442b4d2d181d9abd4acd6ccd7ea5960edc2ca2781b4d82d61a3979b475b690e921c6ab5f7c", "b70de747b3dd0978129aec95da609e5ae651301abcba111306432c58d44faf36709ddda7951f94a6d5d4aa0c63a5b2bd", "aa0347a9513b932f444c4d188b44a5b5c8f8d866d3946b398f3beacb9241e0933c6c87b6a698701b7d92efec92ad1b87", "cb9e0a1baeb5166c53a511bf4a0197f1ca2facab0a1cae43e447801d320eeb193da1def848086ff7f3503ba7180c2219", "ee164a15465e6b036dbf2ff3aaa1001491149464fe842998c5c9f533b01e535601298d362fabcd0902cf8ea4215a3d1b", "194029b5ab2c83c6565e535c729d16a57cc3be4918257c0196c577e59e19cf45a6d75159b16ad1ee95ef352869eda2a", "3cbc2109af82e6ea2001dd1c978373f3bf6f857426c40c8ef0cb5c36c478ad1841513f5fd1394b06f635f1817821adfd", "edc4f8c549d699009cccf678764043a8558d720c0701330181760bef2db27e080c6a681815d92475b05cd1a467514a40", "efa7bd68727977bc4dd009155598254db45db299e9f56319be6f724b6df25cae761cf2d362c4843c3126b3110c1ec9e6", "b2df05727b542f67311e1ecdcb4d684ae58359533c73b231916a5db0abc9f74363615aa54e1a46cedd06a47e722780d1", "4e1f0359618259e15e44f8fd806f323f8d76063fb6493c08c3c5e9105a42b8f1254d76ce7aeb1c5fdc2cf11373dd2437", "3cf173866039346b1fa89aaf8fc3330d11f03ddf552e0717cc3c72bc57cfa1a41dbfaea90b6c1710b5502d2d4af458a7", "1600459ca1facfd0a951b8c5de4e5f358afed317d5ddf4f19ee4f865746a494c5ad6d982b2f335f368d3aef81842ce6", "87555a87256c7ea8788d139fece12660821bc238246d9f1b4e8f2ccc09868ba3aa262bf1ccf1da20ff26c954e652d06a", "5fc67b4a3f5000a9b5a8cc627cc59c4ecea58b925365c47ed453555fbdafdb0537ecdab1a0187f1f7be632d0afb75bb2", "52d3b8779335ed8884c0d473a449a610557274a2d6a91d750083f430222760fd81cb111f4b85bd411f8d4e1c9e4f76e0", "1bdeda3c5113b451443c9657f13f5853fafc0458fc5e7106685e730627df913767215ab505d1c4ee15723425940b5032", "1a04187ba4938b28fb2985d03e469045a2f1b16ebd0202a92f6b37ee88506d71e595a004a09e843a6f4a309c54c4dc70", "ad4deafa15ed1d545648051e71ffa7645a0efcc9f0b863baf37d93c929ad0d1f2550fc02944cdf04965efacf4e0ded38", "7dbcb98d2ab8c441b1f1b5dfb745d3e0ac4edc1694507df483aa19243405f25296621313eddcc260a50e3864d3f8d5e3", "6869b66335112166fa35bb14d4a78a5722c03b37e4331096f004fcb11108efd4dff4231a44821923f1da0196cf28402", "9b3dabffeadbd2d946a6dfac23bb005591261ac1626ca55ed7d27ad2976f4a5bb4c50b4c9a733d8a5f1744b334b3ebf", "c56e998484b95b9d505cd158a56d89323ea82a5afdd69e2e7e27ff6803d7379818d61a05a70cb077541438c1b08fcee0", "62e1ad04f4f8baff1832f75b610cb65341421e13c22773794ef77aa584be1b05e6de981429f107145c94a5852eaf4ad7", "15f3be17c167fa8b910aeda5d13d55d8169c156386f7a43b62d1667db2a9270542a9c7a30b0c12cb798a0d22c78fc5bf", "70c0d98343ffac8dd86a5f42b789e2e05909e53249b21108d203780b120190c6df2f423fcde596f2fb08df65044797cb", "aa0a6a9fbcb3ee12938e6078ae8c25ae5733acfa83c87e2c24776544a8a4136b70102743346976bf7d39c433d0780e6d", "3e26bdf6b39d4177abe1148a18e8fc506edb05d67b742247a270ce26cb64baeb1d33538ebbd36fd9b092daa5dc8415e6", "85a8424cb62b8d53962edca1bab7f25fdb8836e920ef146e33a35c7e455a23991fb00a5fd13e48378b81c95f71edcb1c", "da99489d669075fe24c67e148c54471d5e7b4bb1c789057a2d34c8cf094009a4476e080632defaf0f2bf75359bb65573", "9b88bbf9f424be09ca3348cf29561bc0739eeaa0bdd5dad7740350a0ebeaf02c5c9650de4efcd98e3d192d07170e313a", "987b90f65bc917c815cb7b1c6678586dd2b2993322c7019438cfc2698d7344175e1e11fa81e72911ffe5191b4749d95d", "c8c9d3c7601c5e1dbe610031aa646541a015c081d21180393d8c08187b1a55fe1e83ecb2e9ed011150bec27eca65005d", "74da33998562e5bdbb74ae2b964e53a2c1a1dcb1e02f1c349578b48c17fc984ce6b158150485025fcb640d2d15e353af", "79987f2c19f773c552586937d8c77c0902a3149dea7ff7db507301ca9de4ae6ba0e3591d95b90970afe0adb96b87e959", "e70f563f66af317294368eb7a686efbf60c90cb4d9bd022f8aca401cda9f2d30911bbb2744816f4488454f8ef2985c9c", "887d16a09bf99e54f50dc43b190e7a507c2deb729ed88a55a6093daae4cd4939632b57d6b58a00a50b4d7c869670bd7d", "fa389e9d5a25d11bdf8e3b78777c8c77ba86d9536c739e9e94e5986e057b5526b5f0c0ba1b1c930eb0958bb0f5cc794d", "93414a1cd55ca6c31d3fcf08ece766e58d2569990bba2b61474d7fde9cb656f7571c8e97d9780ee74acb418324ab413a", "d29872ca4c63889d3338eecf5e6c81fc5c64aaf75e0f9943465a257b219be74510ce0ac65e1dd11837f345cdb3ec9277", "e5084fd2e50dee16fae9cb1e8a7156aba68da0ded6986e103787ca10a6bb39b9145374c25ca2b1c126f29dca2fb34313", "f2845afb0c49e3add94fbc1c3226bc4a5ba7906866957ab4c48a8d93fe187d7ed4804923a935215288e225f9af9eefbc", "78e0e614578459aa2bef3a80d471d9fb13c1f3975c924cababdc33951790b9ad11013869b42f2ca4dcceca831f5f241b", "2ddf848a4187cd6622f142d5c1cb2c6f8bbfdd2d2e38771877cf687964e919a0b74b3354d325accbdf54c0d7cfcee63a", "ed9f6070f610b7eea45272007bd5dc991d01edd9da88294c0bb34e82b52113b9c005e9d235b9460f07e31271f6da23ef", "84fbc31227d31b5011a5232be224b90b612452fbdba7a86dde5b24e2d472e48f39a7ab6939f35bc08e3f63b45a4b7f8d", "f88a96241747afc22cb35af7e22f87093c933ac02a7207459cabc21f55ff7ca4663b1bfbf609af660a41f4e22b51968", "eab11e79c9b9a9b06cdda939ee13e8d9927549d5ea29d30892db54d521835c61cfe7745bf20a6d12241d639644876422", "3cd206406c4e3759503b03efbac5ec0be7ca1d2eb46d488305e3fbe54077c92a7d73298ef6b0e742224d428004869bca", "da5d4871e1d0ddc79237b710277005a2326c7f2a6e096d4e57bdc31d19d4161d6ea20acc412597ba1a3559ee1b90109", "cf7bd8d04c7e198f717cd3586b94dab5a501e3f390ba7691ab96216b9aada360b8c1625b551896134f66cb43b53e04d9", "c8d28022267bdf03ed9d8b95f9f40fe438d2b549fb5b24593fec182a34dbe35c2de73c2053511a1601281acb3e835d75", "ab811fae83716b20fe3cddeb0d1538818f7d29cbf90eeb3fcb1776f81963e8f0935bd6c828ec3129123861a5b29e46fe", "18f4c32bb2aa3788e3711d5825b8dd7da2df8811bc025c596e78142c117f560c535a8d26a62818906353bbeb7dee526", "6f5e7ac42e43fa3b142d3580db279e79642f3f03fab6b823528ee15cbf58fd795bf94c8e2a268d45c35345ba046e75d7", "f4fe7632d748f9296a6e4389a8271b2635526c385d1335c36dfaa1449746b56c2cb7b83f860d4cc747a526532f8c1fea">>,
     x4 |-> <<"3b01c3622ef9fdd17aae0332eef4436ff87bedc27fd4ff3cc8a3bc91a495c38b042e3fadcdebff7b3b9a1a85e87a0a4e", "addcb2e521a7c1a0eb9d5487835fab74efa72dbfc2d216479d09821599fbc6e7d77dca048f5e8170d1bfde20016d5025", "307ba93c2cacb76172f8df2fa647b2e3a4ffcc4c21a73bc51f7f30832ae5a418a53941062d40d0beab51a4147ae248b2", "71af9ddeaafa254d71ddee65342cc500a78f77042dd4d5b7bde7ad567f7f4d30828f55549d0b03444596508fc17454d8", "fe6afd06b278f472fb4e8013f5f98757c3aee202f15ddc45614377ab405637755c79a88879fd5aa500d56dad25c35208", "9787d0f77f949377207b972db922dd54158ef45aa48fba6f00151dd9922d39e7e71352338b33ff8c74b44cfc4080ee27", "afb95265047dc16114e22d99f956d6a1eace063e6b7f845c1b9766e4b1ba41c0fc70fbced340457ea65e252624caf38d", "98de4cbc8aaa1bdb4994d22dab5caab914951ef1978bdea0d741316e42a6211aba9705ea81f1531fc77b38eb52f19f6d", "614be80b0fd5aed10cc82a1e40c16c6df62042a84b17740c2550defc6dcb07d60aa9306c52878134b4967108aa2df409", "5da10363e018f3850cdce31fd5aa4bafb33b2a5ecaaddd01a537b6dd5ea5daa149695049e4e914d47f4a0c89b0fc18ec", "a4a123b93cc4bcb69c92cb324b676d7a5ebe6d18f1766c11eebf13d007d70b9418fa8c7ef473ce239ea1a790eb0ff665", "f42605a9acd9e1a9487bfcb4ceaaceb60067721ab8129e8c6ea9b992af9beb369dc15688bb08a436707bdcd4b8121b65", "c8f90df98b742f9e096732d4510f1f2c19ed697790b6866722c09a5e4b53f9216fbe4344cd2e83361a11b5139e62698c", "13236a0cc68b57e60d906e64392c380bedbfbd5560dbedb92af80e372823406a23f75e8b56f765710847d9b2b2e9ad4", "ff4eb7293a577b869b73f6e7401c6cffdca2c26ffea8ea8e1cb0f0d181be2d02db1438761d9c7226cf4a735b7fc8ae66", "a2c836b2aff7e552aff334c8312fa500ba9a534661984ca8e5a324d92342ea472eda3b5b76195929a406e6d32e74c82d", "ae0125c3a1f0da06709ab4dc60552fade45e38af46e566cbc88c9c5c75598d6bf8e40b1f246189d690e53e13c07ced7b", "511ac90b8dcebc5a435b2fbab9269e48ae98d5888c955e8dfcd17302ccd1736af4361409ec034fb05fcaabc8729a4192", "8650cddad3bf604f017fe40d0c0b992e4265d91d357ad9941f24ec888a142402f5c1491b19a1f26138f3f3d3a02435b3", "4886881296a04204f047d0d283d0a9303a17c97e22b23ffce7d6ac3062c48729dd02dd8ad3ff68dc250cc516cf613b90", "c53f1ff2ecee132d938366f783b0fbc59529f47ff6eeafc1f3c7c8c388c025f609e65ca11afb56b8e798288124f27f54", "be1e16937ea0c11d8ffc5acc4e14ada62483f7db70b5ace0221ac1274ed3588803c6acf60ec4bfb566b8760f00974b90", "2ea9c4080bb9a1ed423613cec512a69d141064ba3395b649884d01a95dc86000ff31d4103e2b261e81e99cb96d26d962", "6a54b661bd19793752ba7817eae8527f92dd7abbe6d905e29f5d6179f9789a3d7494cf55609ff9dbe2afe8bfa15df01c", "26aa6717d919b7d2c9a7be3fe99e47cd834788f279f3c46c3e8507168784bb4676cc0abd255b5fb9444d950657ac8ac6", "da33f828593aaf19c77e5b41a0ce90e0dc7417ac2700d46d71fb49d5b71398d933c82fd3d5dea1d459677c72fbfc29dd", "31c98505231ebef9f6d592854ca7e0ee0cf553d697daa4a8eaab5b87276c4fd806fde25f27b9b57657a036d37cb9a7ac", "e5c38bed03176ecb71d03efe1bc0e58b0efc238fd09610340a76ee6628f434f9dcdd97a40b9601f68994771a08f37951", "6e8efa5b88f2c0563436ba74ffe7d70e16d917de6a8810db08aaae3971e6e2b4dee5c3a922490dbb3bcf59e3443c851b", "ad825ee45c90ef9f33dfb237cc2577e2c3caf9b1159ce8b00727bb600cf753fd2bb5e9864b2508bcb28d567e07fa54bb", "deeeaeee6cf7145944ea84548adbb15f274911ae2a91ca32f1ad9dcd327e52b98d90440b82d2fc11f933af869fc084de", "dcf0974367a73090cbe8bb366dd802a93664da43aa60de1f9e82cb2616aa69026ad39e980c04eaab9fda1de2c6d40fed", "60cc4e6356c80ea927c9ee0f621ddd546d3fecc9f31a9b5f3586d82c9827bb33fd9fbe3a2a8f160bf0ea3d5ee8b0a5e9", "b649254d59158452f4cc5d8213a8833f8ebc29d7a5faafb487eac6c01b6b164699a47f217c9116c6cd552e7486c144f0", "ccfe0c201d4ca6126188d42dc097498a581d7e172358cc3c1ec366daca3000977ef265ddc3f29805622fbdd7bbedd068", "f2c5ba61a79c282b285f631bf68ca5c39bc992ba0eb9a64a61869232f57621ac9fc1885eeb1e5d53013473b75dcb23a5", "2fbfea93233820f1818d1cb5d04bf9d3855ff2b548e29162e0e4171f4e0b14831dd15913557898631a85e29a40a17b92", "c58864a9122d7cfdd5386dbbc165a694b961cf48d11b61391fd8066f8c3b0dcb3ff9da15b6f654d8dd9a1391c52568b0", "59aee718a60c17e355b1686898c2ec08f1c6885f34b7718b6e6d67dfaab3a3e8e0c8c52703d59d8d3a49d73cf68a5c15", "3befc1898dce070670d3ffddbdd6dc4d32b4a859f6159e92c4089b0920cc1865dc1f60fa972a2553b1a59559453a5952", "a908514fb083a7674d760a7bb047acf55d5a20ac56938c28903596c9cefb36b821719af49070ec8795e2f5af8536682b", "1c830c4ad09773fb4e3379d7a8eb7088155deae24ce291470c3a0e3d36ad3fbe5e3b9c26eda2d43abdc4e607a6b3f8fa", "27bda2bd61ae9a1449710203b99a14bfeacb84b8b6a834cca3d168ed1d19b711156f7d79fdde5679a55526ebead37089", "50bdebc9f4e84b3431a7c753c74faeb57f2b06112ddcc42480c03c6b4f0b6d40304f57b4c1ff3ea2adb035a0f67d4641", "55597b67493a3e3b7cdd4057ac29e8833bee62ebc0f30adb4668598bff708c0bd364e8f0918cb5e3e15daecace6848c2", "1cc05f71af4af745be8ce65a3a843894e256cbdc1c6a574911a05d1f70e0737d9605b4ed3eee5d7b54213a9d8569e4e1", "9316b1d9d1d87e7bae3f3b9f735136d37da14ee9fed9772dfbc99448a1effe2be3e09650541a21f29f850d326040db5e", "979ab1a5205fac7092ce1156c7d563cca9495167a6b770d5a9b63d78fc6eb8cd177282b76eb91b5d4ae5aef70906b3c6", "60cbbb591b793dec8571ac17e95cb6386ee9862714f054329df78d08639c4b43213d55059793ece829058415b9e6ba60", "e598af8880b7f3ecd743d79d914dfafa8b844ff032552067f8cfe64896d73a01862c32e9562e4a9859f1326b4418b22c", "4f33741eb08f196be4c737d8767161da4552638d19f7bfc9ba7da5fcf906d9a33ae9496b67b7e310f500b2e9d591ab98", "8ace5f6c4ce4ee998506e831e18863a103289957b400c5a1909f873ab319f407d56bcbe5dca04838669fe064a0ac36dd", "4b5647576af758a0f30cf5640e549a5c27007cc71ce3e6b892a0519d89c15a8ae519a88f1c9173c448e919b47297379b", "8a674ff071dd8230c053068965730d44b0c25432164f4b3573d5e86d49ba8fc4bdeb71ef9ec103033dc2833ef2a2b647", "bf8745e78d9fcd4bcd966bd5119820ea5857ca6c1c0aeb255b86e5ed4bd754fe1cb0700eef59feff3a7b42d865f8a7aa", "52e29d4c7ee92ee128e0de5c438c392a2a2a2220efe47d8984f218c7e7044378f7267de68979a627ee94da8eb5d69e3b", "5ac77b8e400fa3eb2e3fb78141ab3112a78ceb1dbd48e5c66601bb2c1bd87ef281bd88f08ea9265b2133c698fa9616ee", "87ef8405439aa7db6ff108941bb1605718ec2e75e2c795856a909e0ce26c4809208083220bce230f163b841f998ceb", "69e4c9d7881b4293773f01c3fb701fb371e4738708d8a8fd5c655c532534b831bda9ec5517b26e949a8426b9673c3295", "693972bf313afb14a22906373c8c2c458f6210b6b5f63e5c68a3d42190d43926f2fbaf4e41409baf5040671923013a1a", "eda56247fdd5638b744814f8845ba37c71b92e5c74e4a882ad799276ec651b35fddca33394187b73edc35f60daf77acc", "cf28c2a39aed9639e25c9ed61386186bf6ec7d732837ff8d2c59c91bce95085f9fac6431397c1ac11bc5162e37729e2d", "12bd175cd39eedb3d2a3435ded94ac54d51323a55ddf533f15a8caf0ac934ba9a461a010d9b3c390b8d18e37bc74b216", "6497812dad1773cb0d4212ceb0fa40a6c00e52f649bcbcb0389e26648cc9cbcb60c5a728c4bcd70910e8f7feccc3e0ff", "dff31e4b873309371f99bd57e7095acb9f07102c501794f2f27241e5ca59acb7a7429982848f7354e57ea10e645f053d", "ccd35bf2ca1c39b5f9773eb3421a07a7b8f970cb031e6dfc6a5fcd5784b10a473c72dd41d7a3f6ff75b213bfe0186865", "3d6ca698ff2efa035079db8c05bb2e61322d349e074c179c324bf6e7f19132006d77a899bc59784245e6b0371be54880", "dbcafce5f8592d5b33b671a7d5d7d87398d05859dc3ce43f87330d6877e2d86d2194a902607b401d994a600feba8c178", "dc0c633a20d261b67ef8a7d67f76d751d18215688d47e2476f3cd70ca7a910c8c868cf3e26aa66e08764d5f4ca5df75d", "8a1e4ce783421c02c054fcc88f0ada26618fb0f87a5b1b6b2fde1cee3126d84472d5e8bd484caf8803e66960e4bb9022", "cc744f0de7b9d59aef2d3076a81a4aba7f056febdf53d4cded28f55eb67d331a6c30aad66790e798a0c676303778ff05", "c1f48c973676340855e97755990120c1ff3799135110114ab38e3a053a7b995c7a432cb48e52c9a9c46ff0604dc75b40", "6704ed9f96aab9dfe38e568bba0e6235f8ceea4535aaf2affbb91dfae463a47df3ee439ecbc835586431a83558179e46", "3ba4c36ac3e48e4d8b6f5de97c22c0d22236fdb8fce2a741094cae4506d20bb587453320b39a2be6dbaf4252ccaf7b21", "a8681c58513b82c9e9195d1f8637097dd54209e35e488d1f1c74dd8a44aa4fa79c793b42b123b4e8f8151e5d0ac0f61b", "ff118123c8885a5a72cbbc152a1ccd14764c01605123faa77422be50d00f0f97d304c9c3b4eb4388895444164e8df30b">>,
     yp |-> <<"1791adb3715ce5dd87f9eba53005e47927df43be3ac7c35bd98d842dd4f51dd5196c1a3aa5c3de8196c7b146fe5797da", "9efb68aaeb3622c31eb5c45a8792c2c999438677fdba5e45bcab257aeef6fb570b3caa2c7084c980816a760084984777", "c9a0f26d642b959583c1c15ca3543365c89a869afa9b85cd76181783126ed6021d5f65f47367cf3ed9c705069bc284dd", "7cf19b09d2fb5019521ba18820ea4efda5148bfd9dbf47baeded8fe4084f86fdd71de74ce2b8edadb830d580768fe8ca", "89a52a258ede0f13ad7ce05903580c968b17409fb7a7ca253051d4e37e3a15d19b26f662828f1300a6e1896215f88f56", "c106e5d346431a05d12603c0bc2ff859bdef12e1e4eede0376c9cd716a889e46afdec76dbe1b3ceec5981a9b446fa276", "bbadb9671d0b2b7db08a013fe676c2db046182745e206643738484f9917460b25907e7ab3afbea95907ac76184689f8f", "5d95c9feaea930b63bad1ca209e4d15cef1feeb5cab02aa467a16db5796b67a5c7b1ec1af7812e3890e2878d37f3768d", "6d53a93887c8c00c92d5988115acca562141feace4e95047a0e2b4eac24b4b842fca67deec28f62ef8420791c72088b1", "e8de22202699f8042ab7128c9f38343d20dfe2d374dbe62bb981a5b0a349bed4dc2fb06e63f565076daa80c1ef75caed", "e99fc191d609f8f3d8543869463e34eac560e34a80c43c620d2781e71d6b07cc985eae9e4babe0813bb0ae3bd54e81b0", "7e194cf136ed221e030e464b6907fe561eae1f2a940c7cda00b17caa29ddd9d13fc19ec2e1da4157b40f0e08dd657252", "db463eaf6f4e5cdb39e14731a7a58aa33faa692bce9d09ffbdf5e1518215df458c9a3809d560d9b9158b8989854eae17", "e926f488e3f628230a74a3d1d5ac4c1ce83430cbbbaa1ebb8bb97576b48fa8d6bb1bd4c4e4d21497fb5b3dd2f9343543", "f31415d4c663412ebe661e6c2c87ba5f6519e3e85f14082c0996d5967432f4eaa7ac1e57af6a3b583a2931274ae76262", "12e3bdf9f196c0a63ac64a3b5f17e71c4ee1ba71e73fb5b150366ec9caf5fee98d5657e2fcf0316b30c5a2c942a247f3", "eb7049d7486579ae765b2307a4515ce93bfdd6f16a2b6447f5efe1b7510e585179d54b692a0e55d2e4e442ba1f0923b0", "4449a10219e32a154527995f28b48b32bb4afc450d98ef2ef12e85a4591a707542c6f2d32e50986d9cceb0bc86e558a7", "2efc919e3dabda53c01044f1ed606b70a78f24131bcd6fa54a19e3fd9cadc07ad5817315109e1eebe130e26d6b2ab847", "8356a4f7c082a790e43641fc6591339840866f893cd60206c623ff413fddd8dab695516481e06464dabbb3803e8841a5", "6c5f1a60217e8bd8b79e5ae8f46e02472e85ce958d9f8dbe5b4980ff995b869be34b71a4d270fe344341d3179d25316d", "60a20cc93e2bde9cdcf3f52e7cc3de593bfd8e380eba71c50decc3565b9cf92d686da1dff294464184dbe42e66d14e4c", "3c48289e59ea7cd808122e24023461d87bdf7eaecb0a673a95666807164460b218a232d6bbf596f25219915545d6626d", "5c653ffc9eec08ca87c29b1744526d8d357479cbabbf1aff77c67094957e664857f2190f7f142856af2852dc3375291e", "f3b99e8e8c6be3a08fe2cbc2179831a758de27179a2b150de1a2219d2419941d4256a8a6246cf1ecc765f7f5f8a22007", "2b181b08fc6972bfbf5e6b47e931da05dbde7d8e5a161c534d8f85a42b02e49de7c6304706e4b5cf3e01169ddcc65da5", "b27628887badda3af0647fd10fe2f56e4b1001fe7379f51ba4bee6682cee9d37634e7ae055407c829530c55bafc0c41c", "f3506ebf7f3f6a5a294424b4b194cee4f946b157d5d38528e178ec3d832235abf98387d11da72d4e7f0f5e66485adefd", "b229938b4224cf9dd23e2963c69bc1fbc873b3ccf56a3651acc581288b5dcdc63c15866db8e3ccd4686e20e6d72ef698", "54bdcaf9ea8baccec7665d600156fb2caf878bde4990d4e839fa88e6437891f4f48ab8e4e68dbc9b09e2dd426eaba7c", "ab3123f277c180e3d55bb5d21dc3f9c54c9a9f02d37d2adc85a1e7245151c522839a164230386e4e0d3c8efba80e659a", "a4f28abad4c6cb068aae3052211a36fa3854532b767eae5723f7a2c9fa989bfea88941f76403898e5514caebd4380a24", "96a1bb4eda3a1fd491dc6897632b8a168821664671182c3e7283ad38c5c3751884ad89f7067daa43b23ba4dfa217a8c0", "ae81a439c2efcc84bee28e7c92c30146d6f28594aae720d75544249d3bd9c641dd7f3ddef6324506869c735f0eb2a0c4", "ecf5c4afdf23c71dcb598e18c65fcc90f20b8fe7e007a1cc86ea90bd144af3ec2d0e8fd271f1f95601bb87459ad7b6e4", "e167dc07f3347a8ebf015e8d880a603dd9539dd880fed23818b9bc6c68e68e2672fc18c732cf99dd10dbb492d71202b9", "22dc875aedb1d35c28169739180380a18ba6cc025bcba079cbe52681bc3286482042bde5c17552602560774d0ea95fe9", "ed9a0c22ed4232abc2643f81700871f2b521794b31b13ac75c3f9fe1a8994bf47967532457ceb65d00156d9c48e4c6c8", "49ae313823f6ed8f0472125bffb6da69217b12d0e084d57aa4f2c8f3c52e40c9ab854f5aeaa29455cdec1c655024281c", "d72ecffe1993a519e3e873b91e923d8d75f831bd70b1d254c824ca32bccb6f3951f5b54bc248903718e05861b47f399e", "5379735c3a68c7d1f6f5171460b5a58b8592b34fdcd1d78f378fa8a31f08aa8dc7b849b796b3983738f4bdaf361eec18", "d0db94ac3f6acd0e6a3fa52890e681328d6d2e0b7b8f8426f27abacea127fa7016f8013b40cc4d68d18fbb2f0d6f8d4", "14b0f484755cdf27aa4b2ca56dae3198ed472875ec5f15c9f54d772fdc7589348b1d775c894c9648bd82b06906a05aaa", "21c0bdc683b87f65cb8aa62af601dccf19f5200e4628673506fb5afdf69412fb9b2655bdfabbfb079743e193bf7702b6", "5a4f4da3e5da58b49420cbf8eaaf62c79d3817dcf586f34162867c80c49cd29850996fe8a81a3d36e9e2eff6615174b8", "d166bef9e0e146b98fe49280dc9eec3cda362e1df184164953e5cd2823f7677d9b4efea205ddf57b3ed86829026ee0b5", "d0e392c13779906e918489ae04f4917eabb9f5a5397fffe45bcfb3e43e3ff98d6853e9ff5877f1416887edacdc5a39fd", "9a8a809c604256f50a2399b65656f9964480a63f478847b1d476b24efd3b86e73ed81aa77ae1f3cb93a9f6d48d8fc247", "e6debfc533001739dbe0116981ebacae24c558e87470bee975f501ff343cb0e21180ff7de9b1450a5d8f1993cccac729", "5a54d57559e12e5de034d5968863c1972182692a455d4037fb0f8d7758052e78f794dedd7d5807b638a37b2af26bec44", "29282026d89ee535023600b0bdee288add7b6e5833bf00b52d76ed544bb22fe7ef359be827791e743e2499da268b2171", "2686b6eb6546df8354b34ccb1fc80648b49ebc2ff88b4ba2e2356fb74bc70f396b686978c2482a664a20fb3756f61437", "523e51173875c457b0e4798544a57c2668b965d1c458558c51131c1fdc22ce4c9d68cfd2344213286e0656a6ed2f0fc3", "46a6fe299214dd7be1ffa52b83e6109f70d603abad285dc500fbdc8323abbef9bc4bd4113a4fca904fbf88045973f456", "ab7f024fd7e27f4c0e0a10b4569a8f7a77b02d402b4a964bbc7401e813cd51c5717767f30653497b415b1ff0bd5d4094", "6ad3984e533529a70568b2c6b4cf146683fab91e7249ccb5bba08e110afa201db96c015906c0c08eaee37f9cbdc19461", "ede6152e713fbd7f4afa7cbd6fea1b950d074e45c65b110ffcd3884545414ffccf7329e7aacaaa71e90ff486d5f6346c", "2c1f42c8b1dc87f9960be8ef09646ff0160b4ca6b7da84a7e5394a81fb0120b7e4811e06886c9de74a54e48036180371", "2dd169b1863e101ea02f277b47ece66dd8fea1d40ccebf61c4e2cefbf32253c203625867ee9d393343f7e858b966bffc", "40e20e1eb73bf339097e813b1596f5c9b7cc7a24f70d890faf8dc2731305577b0021cb9aa2c6336b60e067006ce6d35a", "b2a4c4f68df60e19468c617e768f62ab581cc2f10bea5c83c3fa82e188aa3919fc1a479877f2dac7b0bad86450380591", "93f629f2290a224639f8461ac746954bc9cda546b0af68b6e9c8dc30d005c598597ea462d952079bc024ad8421ee66a3", "c47e6f75f2298c1c72a032c4f5472809f1ca194f1f5aee49501e3544f08880a72a1823bfdbb63526a150677d3a9617db", "985edfcc928ccb21f8ef8f5ed87199302258b19d5261a50817feacd9f39aa7bd9262c13fdb545c944a4ffeee72d4a061", "82b0e8bac692ae9caca07278052aabd6199c663d9bc2fd85bf55dd591b85c9d429752bbf9df61696611acbaa56dbc5c3", "80009696b324b369cea957c667233a75cf01ce677ddf215a3f4007d233efcadc765cbe315a783f50ed08e1d8aeecfb36", "e2aaadff62f76404dba2f0b57dec260cea824fdd4dd774e170487d467b731e4d4e72169a52b9fee40f0efa97b8ce54c2", "f059809131bbf1cc1efb7a48a638e9c948200ff3bfb410a9872ca2800b2ceac098e5e660b5941e8e6236701c29b3d1e4", "e9917fcde84c4e40d11617c64f73180610121c18af338b269da55a1ec47aafaee2120d5e1597409ede40b3c278891dfc", "3a1bd484e1f747215e02b70cad0d29025e96e9d3218f6de7defb96ccdd7569d00ddcf00a9e293ee15f98b47cf464fcb1", "f0e08ba862a40323b9b5686dd2e6837bca4fdfc553817b4a937eb8985140874aa0f2c6136feefe64aad7ae8f2551392", "44c571a90376099640cc4654fbbe80f80c80deec0f993f57f092b8b81d93ea45be62634c2921f8e2a9dad07ec22fb4d4", "8932cca1ade49118a8d2fef6e8a12a906df248e69bdd5d782ab505afb3e3b9cb303913b024d4a5235be4fb8544872711", "d610a2b7e9c795932bb011fadd4e8ebf6af4834697560b77424ad54d3ccb3005ad7bc90c45842f93111edee159a2da13", "a48047a7ee62860b087c952f13a4f6e16a9d6f6f59024d0341d9e27438761b45eea35129463b9d71a229b18d48db69b6", "d3713614ef0b51357dc0707d1f3a278551a99284c7ae07b4399e3b0717bc4a1a3965eabca2946d87e7a3cf656a7ee29">>,
     ys |-> <<"67756d5ab4e61d96c6162a84776c44ece7b65aab714a6bda9c26cc47b6965a59ec4c9c08fab6ad9319bf02ae2e4114db", "c81023e06fcdbdea8945aa24c3ec0f13f89c9b656274703277b12ca308ead4c473e972869a37acaea8f59b5ac68280d5", "17ed311edcccc736e8ca6eec2a8f2f8c0b145ecd04e06bd0093b77eda31ed28de93bb4f85a349b59762932613a7ad536", "79441eb55cdd7cdcb1fd9cf636c7801261a2dcb2bbd0f1a1b4638a2fabae81fd9fe42325e3512a61a328b3580200463c", "a07267c3013bb3db2c25da6d39e6862d9e73e5c5b5503ebc1bed487db703bcadc6348c41b7c62a60bf8f5983f5accc7c", "f951cea4884793ac6d1741f10d9da3a889ecf9810ef0c31e7b64cd85a3dcf550b351e7fc882a8e70a8404c27cdd95260", "92ebb981992fb26abeed6551c01012c32af0d51cfd073e1128d35b8922da20a4a16f9656887a43d3c8216dbeff6e0f51", "cc0ec24dc24c289065824d9d271ecbdfa437fbfcb5c4173ca38c6d96e8babcc77ccc0f8f8072b3d1a82c19212da45b9e", "9e0e8df831c13887ae68cff564f2ac7d7dda930a6dc8cb17453915d4850f53d63af591e552ceb301885e1ff827adf400", "fd6ce81864933774f0ec7ac060397aa581eedd37ef856f6a888aeae5ebd5ba9a4ef1beede0241e87f36c35c10e0d144c", "2db39d19fcd53ea68528f4dc784d082b39b7e1e1b53e579989320419ed00dc618769b021bbd39ef84fc326ffa43b141d", "98e4c615c6f0234b61c14b503899ae9fad245c599171df4c277045671708082e82ab36ac60de12fe5462bbb8b8faed7d", "97c87c1dfbdb9e8ca5391590d345c58ce60bce9ed882025a6193a5b1b87b6d882e77056e38608f13ba08ccdddaf44af1", "42989c88c2f3782a8b5509856ea7fabe5383d7e85996597e010f490c347d511ef60aa1b65ca9552512227ed70057679c", "b0397d0d9ad9ce2b1d400c413678c8a4646735fb5fed8781a19371808965ee20ab56d7137e0acfe457771fa5536a5ebd", "23d80d550a346f8a53dd040d5114f5afee7b8a77979e39b6699ae141b68869250da33095ab027b73c2be2abd67746679", "5982d65f6eef478017afaa5d223cf69de244991215d7ffd3e69a174d5394befce0567f3606a494d7748c0758f5c2b1a9", "d0b131e5b5021cc22a48a2742cf9622a27c869bc5c45b6639f3510f832adc6a1e7ddd73e1bc96ab3832bf2ecee42b4e1", "5ad5bc72c61c45698df95a01ad17f29690a29f168140fde3f66ebe8663a7a66442cffcd06df0d5b9a12fbb58da93016b", "da657cd4d1e874480ba95372b6bb481362e1f578c22a525296592da41241ad63390c2905a51322c50765f88ec460b16c", "b3d90460388919de4f975cd6bb65f5a0b1d7290dcd31c39a45a9059d8e713e78ef099df52acc4867b343c80906ffeac0", "f6c2c112743f8d9e0b250dc790ada965512e2857d609e2eff76f4065f26a407a75b76d90add5a9284ef10f38cadf5fe3", "1371b55bf4177dd58905fb58d5aa3ee52d136eca13ab939b232ece2f729b0d18fbfc63f3bee7a97163d07b15c7ea9b08", "ee87275b20b9ace11da4d1d936f48acc2c2316238589d50db60a56245342a233ac7bbdbbd2908598487f135f1cad4e74", "bd54dfe6b862288b196e1966fc6880fa38c6bcf6333da31f91ff63a789b3de652f0fc8fd9ead434a489e7baee46c279d", "6eb24053c0061c5b100a52867722c0e14e5291be93ba515b2ef81518a995dfbcf63b90deed6648e45331384244c7a2dd", "5134ca51e7b870fdb2f927a994b5f5fb8ee5a1bcdf2f07cecf3341685db004e574aa25369ed8446debde5add8cfbb562", "ecde0b01c1e8f3752f6ca12453809f842195d9c4ab33f31311fab04156de1f39630c02a7cdd4ea5b251e0d1e22fd2690", "5524b92a5bf0e1964713ca3b7b0139faf08c0404104f90bde2cc26db6c127b588d8005047ce411bd17acfc5a06796571", "f8512de54f7f64286cb9c74fae64c9f109731930c1152084040dd6849dba5499148c1bfeee652dceda38394ab9e27c57", "67bdd97a0c60cc5ccfc134766a84bc49fce14b2a00ebd5e43f72c8e75940dbca90d25acc53ba93e85e74adb11b893a09", "5ca3678ada4ee798675e9cbc7d977724abdea20583f045bf1b7c302ebdc2b4f62a16bde4d1b049e824f40952150b5e4", "28a518a9b42db98bf3ba112695ea2a085c704178f76271ae014d4ed25893d28c3c49f19c3da46502c40bc3f3e7c7b71c", "9ade23394a1d9d39680e2c929ff947b6ee3ea057183b030981a8a85d29dc075eee0593e3cbd1a29bc3945e19a79b0244", "94d0e25055941d7d9d417fefe81413f069599fa3366d1d90e0503b5ea630099c929eb4d14aee0cb4bfa574560b91c99f", "ee9bb1bdde54217d24b8a15cc3ac1990b928559e705e30ec3302afe616b9bf9e6d490f99aa5dab094dbe1434c9485270", "9b5d7ac7d197aabc1fa1e47012fee4468ddfae0755e0510cab5860beabcd00dea3f0609f2a77e955ab310600ec48e768", "a018fa29fd5fb6e3f4b6001a7024ed9c883fdc683d8a03560722413489fc5076446829a5b5005fc4c3686e0e1c323898", "62557570ae592e252b5af9d67785fb8f5c113bd97001663f86de9fec2378feb7ddd4209f441beaee41de326c7204fbe7", "8c91cd50745ecf115445f4ed2e2c9c8d04526d3f32f27453bc140d00d3c165da550aaf8793861aecc47709eb313f3f07", "140bd869cf39cacd980418f8a27199f32dac4633e32bf865d2c8d53aba9bce1db137c6fb0a5a6d56a75dc4f9dadf5349", "30a26cca221420b70dc0282ff5a314971cf0a553f4a47b4ccc01e5435bccc21d3066242963ad06bd43b56a625f5eed71", "e0952dc7b6d5dc0d1344e1c89d77c4ec1aec7413ae045cda6938b7dd85d455fce4b070a6d1af81701c699d11cbc22e18", "fd1d4e3ce69aad550480bc86f29d78d3f1a0d36b5e3b7e6b0b12a80a641e4bcd261bb2cb86e40cc8bd697ec67e79ee07", "146e3dccecd0d3e1c37b481ecd4425a144aa0b83387ede7111ce0993e760701ed1e039a99ad8b8d500687e10638d84db", "e33a858dddddb11f17e2ad959d05b28e202d0541fecb51e774f38e3ec3c3cf34acb62aceedbe98c108b1f52caaae06e8", "cd7d61aef9a6fb14f9396e1a70ed02a5295a9618b7172ef98185528072b7b88da0093990b97e679455a2c10b87008d44", "bada33b423d53cb3ce31cd574b4fa3c25fc695729d7f74c085e297494fa9af3628cea281fa82aa5dc033a5264ad8c395", "4641ec24ab5f2762312c261e0fa3bde3bee3bc77ded78672e4c18f41e69db1f0625f26bc2464ff698f9f0e839191da40", "edc2a571f9f55da52cc059e1638699a526f83626ee1f712a4a3f3faf56cc706b39ea39c1b0857d99a8010d002d9edef7", "16b5887152a035d1272c1e4c94c1f612926c56a9e24c396c651b43c12a28c95efb68cb4ee7e49ebe154aa012a459f672", "59343001cc477f94b22aad01f3ddc32d35b2eabe09aa436777ca4cc059eaa648c93d80d48504ad928200f61c133ff2a4", "5ff6c552bffec888435c6c6297b16ade4c142660da464720ff6bb21c06ad9a40f34d9ccabc403e88cabfa5c10099ab4b", "ed62b69bdc1dba8cc3dd336755dd2200ac63d4a8d7d3a247ed4ddd8161aac12f2fae1d6ba056285eddcecf99f741ea6e", "72590f311e8c2d442657fe75b3302438e6d59340f26182b3e6e9543bb5043a02d921be2cf16240bc425a806a7b0c35f8", "368e6a249393938b0b203f907b83543566cda016b5f3e78df23a111dc118b7bc5ab63ca8acd8a6604ba79f9d9472972e", "1ccd2dcf6c479390bf312c65b52df7458ff7b4e65daef788e1caa1d2e19270961d5b817db45cb59dfa12c3c670c97716", "6b606a1877db3f23d2442eb29a2ffbf808c386086f5d96c8f534f679f7e113b544e31871b580bfaa36142c4f29b2bedb", "f46366ebef746338486c1d83b5cbaec43192722f1ccf9ea18dfcb7efcf8f16254995302a0a0c9f93c0b7e6b488555313", "1669f0d8fb22c21b24b885e898acbeb5a6771c23c115e573286cd3ab02a3529f9f68e33f01f14cc8f02d95997c4f59f3", "87a4efd3744885c09dbbffa9a505b346f58fe66e16e1aac1f966f0f70db55aa5e4dca3d4550a162697e528afc4e9fc2", "3adcc65dab1660d66e0fb0d44ca0458170aeed1c391a91d51bf9c53a8387a2bc6cc58185f6b6417121c7640ae92ad02e", "7463a4c78e1f8c605e810fd1f96b668dd09c03f1db5da1b5418ef2c46503ab103b94a17eaa6c28b0270a51fd76c84cf3", "eb3d50b047e27220958f35875221c4fb46ce3b1f52ea54ef072956f09e1fd6ebb24840d2b0f82e74435a928124f2bbcc", "9685b5cb39f2761a1f0d06a69e6d6dee1029854fd8a1a72cb383967aaa2de9f2d2692e3a8e4f7058af1aa1c4ecd4dbbb", "31f219881dcf6a509cb976a8ba9113c1f1591ce1abf69431e1d2cf946db8a6eb3d2048c6d0d8197dca9e82e3c6ca7b7", "e89f38ed32619a51f08d704c1c756f5f86fb33ea8f68546baae9ba153311a2d25e9eb2cc2bd6e5d82cd87df594d26877", "74701f8907a66607c5cce677cfa68e28cd52ce6f4b9505513afc0a690f4e2d015683d3b8702f3dece5bef58de8076c19", "530746f9aff62179c779f5684ddc451b7c3b227dd6453a26d40786cde0d4835f2d5504429ed3e3a746a84b5d77c52d52", "898c21fabd249e0c33de43ab5d40a32d18dc191099c62cc791d1f8b12485f4795437455cfd57af06464004b2a5a2bae3", "fc3b3ef44e41fd3e871d41ac88708df3035a2d2230e45ea97f5d426274a7f5d2ec3994472ae2c5ca43da981f2e810a5c", "40fa3fe9f6934e340b958a38b7d97762bed198129fbfccdb9f690090828d63d1b294cd33f835253e7e7ff81b4d541768", "7c5c8bdbabe9eaa1fcc846f16a3f1be79186d3f841db1276fc6e73ba73d37e8c8a666c0d6966472a31e13c48179df186", "f70f15bfb86bf8d317979efe5572d90ce8c535cf3e5007fe8f541fa548875b91de02fcb767993234ebfbae8090df79e5", "3286f72c97985a8b72fad53f8ff0a0aecd022ca4ab7338a19c71fa5184eb17ed46dc57c5860d7001ad299712609f0e62", "534e2d9da74abdf2bf0141396e5d76b8026932297ceadb3332081aba70284ed702e4f692693bbdda365fc6ba67dffbe7">>,
     yd |-> <<"3e4f42503013e61f4c94ad7cc2191f16e0372c0b30fe21283e06543a46fb7abf681f42f2089813ad7d847ae475d4a7bf", "54fe2fbcfa2dc91d50a30ceea1855906710088b9a57d9d2545d0d2d8f45bcb898d08763b6b7ee50055252103cdac6104", "72eead7b87a4551d7aa545bae75a93af6ba80e1e95104cb46c5ed584c1a4fc9de4ed5c394e6f5307092f2022adadb2a2", "982333016f58dde333dd1b4d9c44e295f81fbb72f9981e2bb1527ff2ca040e4ae8ef7c1ac3c6d8892e72b498fc91a550", "7f83c9bd199a2b6e62cdba1c25deae9650c17fa028a018515ff8ab682dc0d861d286718c3bcb661201cc9d8e2d237907", "7f55c64bfe7fea5a0d770b6b1585ccec607234da56b64334fb7a64346743f6dce7ca911cebf6453582d74a2376880d87", "fd1550088e35494f32ad7b5e98ac4e4577e2d57c938cf63ddcd210968cb4ec91dceb26feb809f723c880f1b8bdcceee1", "ceedc175bddd4238e6b5ebe8930a55c63a0ae1ee8b0716e3663f972ba3cbb9b02ee6920a3deeb3cae48842060676cd3f", "d24d642f18082472ae9ffa482b29510350e597d7915a95bcf7ac7102b00973232c0809c350632264f1ca7f51bf690011", "c7906e05cfa79530103bb53ec77d9b3cc07656f1189f4a69daba4e92a947a87419fd1fc989b166e28d28c7234ffacba0", "bee35e7caade97ab40d948456388d02edda5aae6c1b1474c4e10b1956c7fd461dfcdcf22439790538c19df082fc84f7d", "940a4fe81e70f29631516775f11406cd6243f79b091ee20a9300d1c608e40e767e653133ffd4d875d5514957f9546b32", "f2581622e4bf8ae687f135243da3e3d8a625f6b17e74d67adf6af00875190822670638a4d5c3f3e1d00a43a376e95244", "dbfd4ab31223c71507053cbd5d605876382e3893d1018d15e655ad333593ef5945ba2e6a210db2ca90efd79c44462b14", "5ca20ed84f431b84ae24b8d43be35704d585fb07fb85d532b1303634e51b085ee80dd01df848388ffeb0b92cc73ae691", "ea30ca67cfef1cacd71a52922db154c7317db995921d18a25069244f3c95e946f59f4035e9a9db3762fddf12912e5d6c", "78ab22c3f5bce11de9bc0746af953c6fd172df1711d8a2b3d83e193941e28729109c84de5dd5fc549f98da32e813f5a7", "c17e23c9e48e40b390728ca259dffedef875723e1ede95444fd8a107403d7bc653fe20478e6ea6e6b34e6a88566647ad", "53276142a328ccf3b6c0a39155488b2317cfe79865c94d157e8b67b4da263ada23b029e07ce69cda2c2693951c0410cb", "a6b9848bdbd9be2585b8a05c456009ad98c824d1cebbf9151ea03618ffe23bb92c5cc59a350f42fdec1743d9d1f0f56d", "7a045b3544bbe06ea995a79a53d2b54212d3ab59b45d038899fd05127eda3e02500018ea7da1d7bd24926b3dfeadcc6d", "ac5c9b51f98d06505a31a161ef6e479e1d0ab9c9f72e15bdd0d8471cefffcbfa7332f7fcb68a9afe755c8214d172523a", "69f131b6d15bb4cfb2ae0e29e080bfb37fa0a803701b2e14c9fa1af1431985197ab84fdca7734b070773d69c895ce200", "94b38af43490f731cc4079dbc0e1339ec8165511966d920199628f0ca3ad389b41cafb32350d279c1175eb2724f41a35", "f2c4675ad29337f9724ec960865db9e4d873ad8452202c0de961723f9a73e1a9bfda12dd40e4a97b553ec982bac72eea", "d973be759c08374bb15f37084827318ed59dd600a239b4c20e46ae6d9425e809695e23c91b2942a478f47d87eaf870ed", "75008fdc1fd2cdf6be05b67e3376635666772390be756c84b6340ef5f7a3af5e953b7a3af2fb75d77818708431c517cd", "62bc9c44177813c795eafdff1e77452c887829bbd9b8d8b2dfe4bda235ba6fa062bd21d2da6e53db375d1608988fe74f", "d65ce916538f2d59d13243f34bedf7b0358ddef2eb2e103410cc1e0447b6720f0b09efa0231b7cd5472301695c3d3120", "8a4abfb688320a42c2dcd2e00ece5bbcd81ff444c8102d5263df8e918daf222c4e42e62673ea08ad5e589c99cbb7907c", "da4a9ec815f995407ee9fa849cb2375e937d474ef8656a82225fe209ecfbcc0911bd50810026165f641122293721b05a", "f77c4e32dbff2b3887e14af72630493ba1b1f4ed3532f67d92d5e12ff7f68d146b75a589d63aec56136315ce56717d9a", "738f9024c930bb34c54b78c3fee72fb10911ed3cceb1544d34aa19b44a108e30cf50a0d92d0a3d084debbe42d5b49eec", "f02aab5c0b1f569f9d9c6259a1a6de56492737d531ac77b3cf7259d825b675f84c6f4165fa7b4430287618b5a6798ad0", "c436981755265a3a1eb5c2cbcfac5ccd5787ee2c11d51a4444bf303cd0827b841eff64aae142db47e813e5fef4f2bdfd", "937b1e2566050348dc00adeb2b587273bd987333c6afea69c92969796a142793a906708cd40139391620b1bec4950f84", "9f5fcce24bf31c2553a79df27949527d0589af71b524f007c3fddbc2dde976e241ecde71565b534e00f00a7e442773ad", "bbf2c830f95e91575623dc71ecde594e07bb1c15498444a5efe69ba1bc411e33a77f35c6c6764acf374bc2cc16a3e39e", "42eb578739cae4e1a6bb6a14cb51197a7ab7e090f2fc4b4fc0f343b41f12e0e8bd4cd6e3af4cb78c8821cc15966193fa", "215916b6e63fe513de988718f80f0542cccbb6d5d527b236468022936236329d64c3e45276ee57c6e8726f99a62fff0b", "d0edd3bc057635ac7c34c3a040347b45dd8366b78d22b5ee47352f9b05346df3c110dd239eaeeca4813d0dcdf8ef2e13", "7b49cdab8101b69025c794fdc60a2eade9634300f6c5828614a54424e3339e3c338914b7e4887fd7d285879e7dfbc51a", "33a4e3efbb3a27f5a9783b6cb5df90ecc36750e8128ebf623e520c732fc73a5214e5b2174dfc3e5561519123fe6002cd", "9d23a63d18df8b73a8cde0218d32b7cc2681a5bf485afcafb691bdf866ba713579637c56a9fd5bfcb5309938291691a8", "ba3d9115dc15c49aba33a77e701a2e3716a958fbd08faf688db0e0cc2ce4914ab4db28c2c973697bc9f791b055ea9722", "d49d309b5ca81b9fc435f7fa876fa168ef6459fbfcc88139e7104598830667c21967fee03d23d38ff1ccf4fd470d56f7", "2631e81a319e4d9b809ee8b5d4fef50cf714a05a3d3849dae762b42255f433aaa2358d74956537e83b01394e3ae2354e", "c136c71637fb7b5f719295daa2f8b0296caac9da5c4d490c7d23e70eadcad49b7b4b082ca07bf519a39cf6dd1b3a905d", "8ac235f9cdf21f99efd4e3685acd44a83f4f0433e39736c1be694d823f429620b14aa5c67aefe5870ad0f7ee2fa8a277", "27ac96cb618e763e49b3e22ab0afea63f844e196b3740cc7934cbd9e005002bcc6311479cdbcab10b562180917912214", "a47965a40e2030b9f9aca2db5b27aff18029a21b8c6e174a1e21aa6dfe35bcacefed09f6c2a820b6c123b5f8ec49cab8", "8ddb302dbd9769e995926ad8799216810519d48dbbeeb33983ee36c45c9fc96ac0c7c072dcacfb698692f9acd12c7449", "83ee4d7b00e47e2113abc6853a46e5a4acf80787364b085ed7537027572f861ca4e87df0e059a71dc407bc4ec09ee7a0", "5ac0d74bafcc72cc018757dfa55726aa151201bcf4d7cf931fae7c6b460cacb0c3d9e48d0386e844df8c80a6f8d5f1b1", "e7d390531dfdf9b6ae1556966c11b10fa9e6666e8707476540daa38291a5214c69a23224abed98b08c949377716b9832", "7081ba3ec7e0b3dd9d9043e491c6e1a40bb8dc6450043ca335955538f01ee808172e80357904586c17531e10da8ab888", "649eb7c4f4c247dc6777f3d7a2338adff36b60835207c417d996ccae5b2458a04b4fcac61185087920737e8ba5d60b0a", "c03d36fcef094f0bbba9792563c220e32a38be53c97cd9dd5679415418dc2bf2b05e9c505318d9e662910fdfa9ff3db0", "a8fba0935a3431d32ebe9013d3ada3e06678fad59a47f3f61f6c0ecb1beaee82d0eaf27367ee6213fa288df57b76495a", "78c82a578309f75466dfa8a2941b62a422cd05eb634079498a6c2020c5a4b67fcb2bea390a3e685eedc269c6dba65f14", "da12a47c9fc9fd1746afa952ca4facd77d985983eca77dfcedf7b29a3671a8024028b1dd83a55ee8ffbbae8ead927945", "558b7ce6c2085ba5732a365dfd2098008b40f9256dcec94ac9f0189372bd06eaad70b5f8c5fe686a99ef4251805ab2a0", "e61eba1c34c83363ceb73347024b2e57f5f475270f314dfb1b2da3ecc4281a83a06944ae38dc88d797524d691998768e", "ba083ecb793745eaa7e7753e2d360e63dcbeae985638832475997e21ddd86687cebfff5180473a53ad7778410964068b", "d46b19d041201d53a4a5b3eb08208f44ff83302d5b2ddcd312d84be1d9cdb226042634a20852dc28d0691618b4d572e9", "d00b6588951fa233bc8f96297d8907171e342d86a3af36291991e8626da003568a7f631b7fa8361ae56c1e8fb3f4e84", "e43b88f75cf5e5329e17d32778b2d58616e4362c4d8c41874420e233516b95aaa34749fb49b089b94b9c93838ceb0a25", "89586a442746396c180ed5fe9dfdb759e25d5afa5426f7989d1198d08db4d054dfbc72bf78fec0dbc397d78a9e1e3fbe", "1692843e29d9e2d8c2f161cca0121776cf784e0c0d927c2d9db639c5a66def7ebc60a059dfa112c8b4ab5bc440107901", "d5101b3f409ae9b41e61a44711479bfa606bccecb867400ebc2aaa82766d455997e67f49fc2c866dace3fe0097a3d185", "e4fe53e749ff90b38e1899cb7226856276ae772a87396b8c4b5bed06e84605ce70fc76b5726788e154711911d9e3104c", "bb20bba8464a6fb43bd04daab686d3bb2e8d9620e258565fb0557ae560560d349a3962d7c24bae6e53b37fb930f249bc", "bb761d26b722b4c4e5a742a7b546b1f507914eb0089f04b24f19bf7643c502dfdae859b18220c8a2d163dbc8dcda4e57", "cada1f9746b3be51a941868107c34ce98be80fd0777f11a17c7ce143aa9e4aaa7eb9cebdd848b2f486ccf7388e893d4e", "f622832f41d34807ce591b7a99f6c158a4547c10fc52acc2e3e2c62478f07fd3cacfb88333c01d2bb17de1885d22b9ba", "9054f58048c4d9cae75accd5c94146f940b70d7278b9982b4c56e9ffc891268b719f7c762e54b6935e3f29df3875f7d5">>]]
=============================================================================
