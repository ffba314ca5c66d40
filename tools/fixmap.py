# further (property, commits) pairs
MAP += [("D01", "c9e1860 e5b8cb8 023c5db c206376 c49afb1 391f53b 918112e 68f9139 7c2f47d f0e646a 349d468 1285b03"), ("U01", "94cbeb0 bb89daa")]
MAP += [("S01", "91e1628 5530b2b 670a5c2 4346545 4b05897 61b67e6 f93272b eecd471 f166eaa"),
 ("S02", "c19adbc 62ef939 869920c cf87280 6e4ee55 d3f4bd4 dc6656a 5a984b0 1e27c9b 87e7868 7806331 18bf0e4"),
 ("S03", "a5cf2b1 de7fae9 926c23f"), ("S02", "f51093b"), ("S03", "4d86d59")]
MAP += [("S03", "4464a8d 780a04e ")]
MAP += [("F02", "483b45f 99e9932"), ("F04", "5695390 e05833c 79f8ca2 7a2c0e7 6d2dfb1 563e5c0")]
MAP += [("F03", "2a35ac5 4214a18 8925e30 d263280 91fe032 13de75e 53229a9"), ("C02", "0292359 a053d1e 7ae92fb 6b3e1e1"), ("C01", "d057a40 3ca3425 b0a43a5 aeae80a")]
MAP += [("P01", "baf9cd1 0c3afcb"), ("P02", "8046ed7 6da10ca")]
MAP += [("P03", "d6d9448 de9f808 a3b8959 7c962ae b126b7d ")]
MAP += [("S05", "2cde6e3 07b1a2c 53d7555 63395ff "), ("S06", "c362e3b ")]
MAP += [("S04", "7595b65 750ddcf d3fd1fd ")]
MAP += [("S02","91302f8 "), ("M06","403b163 ")]
MAP += [("T01", "517f8e6 9526d56 a66739c 0b05dd4 8f0aa5b f11d1d1 4941962 0b5d4ad 685bf3a 9c9f6f2 "), ("H01", "6ffe33e 2721f72 "), ("T02", "ef2d557 ")]
MAP += [("M08", "e2b5c8d 66a7a1a "), ("H01", "ad5a20b ")]
MAP += [("C04", "3355701 0e50a38 2b2e143 a356eff 89fbdaf 80bd88d 8d58c5a cba9b47 1a3e9a9 df2b704 3c7e390 828ed62 8c0d3a8 84489f7 2c0ca12 4ed34ce ")]
