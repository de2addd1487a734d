----------------------------- MODULE RsaGenPrimes -----------------------------
(* Candidates for scripted RSA key generation, made once, offline: primes of     *)
(* special shapes and composites that the primality test must see through.       *)
(* liarB = (x+1)(2x+1): a quarter of the bases are strong liars; oneB: prime,    *)
(* 1 mod 65537; closeB: next prime after pB; highB: pB but for its top words;    *)
(* minB, maxB: least and greatest prime of B bits with the top two set; tzB:     *)
(* p - 1 divisible by 2^400; sqB: square; f751_B, f743_B: a prime times that.    *)
GP == [
  liar1024 |-> "cf482be9d71bf12d4c5bc3acdc89786860efcabe7d910a5fa26396b8839a8cd847b4f67ff9d84af859fe2e6c3138d7f5357bde9a7451614cbed99475003c293c667c23f1fbe29f8e4bc8d23f54d0b2cacd4ffa4ac81d4009d4fc8ff4bf866090eb68b8859daa526b96396e92df96c7e5c39edf7d7bf2c9651369ca10b8c3b3f7",
  one1024 |-> "cfd6284916d59de44a6a1a91eaf4a73f621e8fe9eb6dcfc16bb87af0729148745cd131255dac0f5b8b882b9c65669ddb8f37b7e0439cee803196edc5224f65f90d9ae0ae671dc8c5298d28cc0bdf506cd8975efc319589b5276e8094cd77692bf1ed4c25f1adab4b3bf12ccf5bf4bc0f76a8f30e9e7c1fd4f25e977916f82e4b",
  oneb1024 |-> "cc1fb90e7cb8279e57ebe55bc0b668f11d0fce7f5fe43e6ba03a1c60a62c8b36e428a5e57045d1c891f0362a867775f5031c40e4cfe93f5c54bb21bf49dcccf7bc5c88bcb3448f8cdd928703468fdb59b30e4c5cf878247fbdbed63335cc5acac02717895d9ec420243cec3159f78941a3b017fe4f65fd7d70a71d14768795ed",
  p1024 |-> "c976f5093fa5fcf2d8e4fbbb8d97704d2f2cd29fc2a600acd452a2185933586fcd97d2dc57bd71aebc7fc65a111efb66d120fcfc3506c16df07341e926d7a798fcde39f47a0f5bba5ff3adaea3d71842e990e594f770207fc283272da02381b031f00ebd3ea12097f7a8588a4c67ebbd0b3b55f7a34e80b605aa635ebcc95f2f",
  q1024 |-> "d8e066d512f37a797c3250afab424859b6efc71858458ddafe5d81afaf6d454470fd14e577ec99956417569f946ed0e7b65dbb7449d97ce4cb7707b55fde8d2eb4ef4c1bca88c3ba9cb000d998db7ba27a3b244c83311eccc1b18c3a5e0bb0a99a3a66c15a0146de11d7d092dbf7274efcfcb0ed60cf2d814059a183d64ba94f",
  close1024 |-> "c976f5093fa5fcf2d8e4fbbb8d97704d2f2cd29fc2a600acd452a2185933586fcd97d2dc57bd71aebc7fc65a111efb66d120fcfc3506c16df07341e926d7a798fcde39f47a0f5bba5ff3adaea3d71842e990e594f770207fc283272da02381b031f00ebd3ea12097f7a8588a4c67ebbd0b3b55f7a34e80b605aa635ebcc9647d",
  high1024 |-> "c976f5093fa5fcf8f8e4fbbb8d97704d2f2cd29fc2a600acd452a2185933586fcd97d2dc57bd71aebc7fc65a111efb66d120fcfc3506c16df07341e926d7a798fcde39f47a0f5bba5ff3adaea3d71842e990e594f770207fc283272da02381b031f00ebd3ea12097f7a8588a4c67ebbd0b3b55f7a34e80b605aa635ebcc95f2f",
  min1024 |-> "c00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000040d",
  max1024 |-> "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff97",
  tz1024 |-> "c000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000002430000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001",
  sq1024 |-> "d000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000037f39fcd7dccafc17295d966511296d9587d6b30b6b639e84db6c259c2c9cd3baecfb70e981a5035e6f575a13b237a1ace32bc843d5f649ff605d6c8c61159e5eb9",
  f751_1024 |-> "f17f31c03ca4108c362cc276363ad7ec09d954109ee938fafafda7995aa971adaf166b8e6deb9a0b9d095ef4de9e941c467a11cb2503a69336ae9c7c79efa5cc67eda1173b6f929a61fa508baebf60b5ee8552707e05b3b42c18071d1177880b585f2b74cf9ff8b085a3ff72f42a8849bc702a4e7ddcc8c4a97f93e7040f75c5",
  f743_1024 |-> "efa12deaba3215b803a63b2a372b0c8657d01ac01b5f84aea271d99adc82bb81cc32f12fafd3506cb785653e7b81db006b6642f52912c5b6fdb5df641ebe1853cd80cc924207698463bf0e163eb0d8617527b8a236273a61cd4c911040b5dc3267b8d0ffb4c6aecbfbe0d5d596096eee2dcf01b03d086d36a63c456cb0dc1517",
  liar1536 |-> "db3a71ba6e1f5fce7843afcfa94f6593fc0566dc73e4a0232741422195989d5f49a6264e10090d1df2d507d2a247f1b22cd5d84a8c13da99c41e90d37c70489e0709195a2ea0b1eb87b39753c6a303828282b820295bd6d1db677f1c51780f2be347fb8fc3ef65099525b5ee05bfd63dd7d82b71fa343b444dbcb3b0af6924ebe02cc97aea5b20cf5744b0d1ca37c68087b5597877f714e5f4dcc29a72404b4bc6d4a913355a64a058cc312997299878e55ab85c44ac8baba74660479127dc87",
  one1536 |-> "c1fd27fa21bda467747e179d50ab9ba2fa13b042f875873e624d6af12f5054355f62a39689c6f2a1a68955eec792f0e354e3b10db77d61708722cd4928bf9368e2e7072689a5f906aa3dc5dbb5256fe182da0ee2b1bd91530825008cd0c32a6f8f405140af741f102768b2a19c7f6310d367e3f55bf163164fa0badfc1a934789f61b41436f5c941528fa4a9124648f2d5bbc8fe3471d16ca5a040d47d22244972c5fb9f0a70ff65c03e439794676c893817c63eab81680ef5e4a3ba04d409e1",
  oneb1536 |-> "f305d56cd3a679d49ddaff8de7a46475aef2c81bd0d63f3d7fe30c6f3b3350893dc9879b4b9c01abe7a33888ccd29d6092ba416e39abbd0efb10058a493aa02721ef90881b4d32987ab05926fc5fe5125a67c90aad3af145efbcc015f7cccbf3f1f48c533d7187f510bac4fe752db71628c1c5eb9e58d88a46b53f8ed3778da99c26a8b1667e63010104595cf61330a7002ea8a4dc47cd3f17c8fd0cd01c876245dbcdacfd60e717a56252d5471facded153bec30df6a9f7827f3af9d0dbe937",
  p1536 |-> "e174e624e00ab5260a1fe195326a6170c63e724bdeb3b97eadadf3f5ffea807eab85c5bbc558b13c47fb9466957d12207a12ba28ca90e6ecd29dcd970e9fe88f4e7082d72cae03f2d473471254aa0fdc171f12038d3439c8fb3e36331ac5641d1d6752f3b41f82d42c50c4a5b360619c31b41ae32deb9a318a371ce98b94112589f4e2aac64e778ab70065a99c582a7d640567cae60744a610d76e6c69687cf77bb8c92869d825674334c664a50a7f712108c58172616b03477aa05fbbf12ea3",
  q1536 |-> "ce6f735e76e6c0dc94175bcc96d1d68300c860c164dc017a12012833e2fe8f482d4bfad7fe7d76305b7498445eeeda0ec0e675608d4d00a7af038792205e306914a68395434c6255d1130c298c8b74dc62afd5e3b0fff025fb97623671fac1a293250264af23fbe7a1099be341bbcbea9c9c2fc8da494630a899248fb01801ebfe656c84933cbd92d1ab39e2319dd2e653cd6ec66785eaddd9eaaa88c9fbde0c715790cc680fbcd1775972c233723a0c47f16bbb8b51b627585dc8672683f15f",
  close1536 |-> "e174e624e00ab5260a1fe195326a6170c63e724bdeb3b97eadadf3f5ffea807eab85c5bbc558b13c47fb9466957d12207a12ba28ca90e6ecd29dcd970e9fe88f4e7082d72cae03f2d473471254aa0fdc171f12038d3439c8fb3e36331ac5641d1d6752f3b41f82d42c50c4a5b360619c31b41ae32deb9a318a371ce98b94112589f4e2aac64e778ab70065a99c582a7d640567cae60744a610d76e6c69687cf77bb8c92869d825674334c664a50a7f712108c58172616b03477aa05fbbf13377",
  high1536 |-> "e174e624e00ab526e61fe195326a6170c63e724bdeb3b97eadadf3f5ffea807eab85c5bbc558b13c47fb9466957d12207a12ba28ca90e6ecd29dcd970e9fe88f4e7082d72cae03f2d473471254aa0fdc171f12038d3439c8fb3e36331ac5641d1d6752f3b41f82d42c50c4a5b360619c31b41ae32deb9a318a371ce98b94112589f4e2aac64e778ab70065a99c582a7d640567cae60744a610d76e6c69687cf77bb8c92869d825674334c664a50a7f712108c58172616b03477aa05fbbf12ea3",
  min1536 |-> "c0000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000072d",
  max1536 |-> "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff283",
  tz1536 |-> "c00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000010000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001",
  sq1536 |-> "d0000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000016aad0cd448c5aa24ae3d1e8b6e071fc891e6591dad45ce9dff76a6fdbc2ec0b91ef0c7b139a313cda15339af688187c7c9628630ccc4dd5748de91363ae991bdfae72d4fad786e44fb77b00eddbdd713b0a4e2d8a4c87261e5a6c37811cba0f9e9",
  f751_1536 |-> "e40acbaa27858268891858890a967d4953ac754efab001479f30b48836b92b712fd3e8e5db3fb1ab9340ed3ad991505cde84b1bfcd4ada841b3a390feb5d7e9ec2fd6397476fe957724f99a39a2a04fae010c751e3ded73a3511c2dadf2d544c153e2e6e8734e1c04ff73f03f6bcd4df4909e5aad40bb72c954c56094eddeaab4795a3b7f4ecbc786c11b61d77c6665214d1933f9e07eead568b1973ee8f6fe9724a3f52576c5be7457c0aa93bdefba583da61d84bd4ccf1bfa7a6ab8b1549c7",
  f743_1536 |-> "e8bb07e1e66d1e832b903e8307635a0cd36c81c33a22c8df5a773bd463840e226cd903c59f569b0d75c21a31561a815a597510896e4d583241b9d5d3a1948e93770f482886eaf0ad3f4b95f2f4cfb08fbff6ac85ed712d4ef9105bb4876c916716cd340ab4d9898b300004a38427e29bab4507de9243fe53a4ed98df76cc2bd6197adbcfc591d00dd91cf81969cb1f6b7cae0d134e66695b96424b76a00aa6a917b2f53957a6aedb36e268d009d24ab34fea6b4acc9aebc42fc005499bdd0cd9"
]
=============================================================================
