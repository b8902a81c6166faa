{"AElig",{0xc6}},
{"Aacgr",{0x386}},
{"Aacute",{0xc1}},
{"Aacute",{0x41,0x301}},
{"Abreve",{0x102}},
{"Abreve",{0x41,0x306}},
{"Abring",{0x41,0x32f}},
{"Acaron",{0x41,0x30c}},
{"Acirc",{0xc2}},
{"Acirc",{0x41,0x302}},
{"Acy",{0x410}},
{"Adot",{0x41,0x307}},
{"Agr",{0x391}},
{"Agrave",{0xc0}},
{"Agrave",{0x41,0x300}},
{"Alpha",{0x391}},
{"Amacr",{0x100}},
{"Amacr",{0x41,0x304}},
{"Aogon",{0x104}},
{"Aring",{0xc5}},
{"Atilde",{0xc3}},
{"Atilde",{0x41,0x303}},
{"Auml",{0xc4}},
{"Auml",{0x41,0x308}},
{"Bacute",{0x42,0x301}},
{"Barwed",{0x2306}},
{"Bbreve",{0x42,0x306}},
{"Bbring",{0x42,0x32f}},
{"Bcaron",{0x42,0x30c}},
{"Bcirc",{0x42,0x302}},
{"Bcy",{0x411}},
{"Bdot",{0x42,0x307}},
{"Beta",{0x392}},
{"Bgr",{0x392}},
{"Bgrave",{0x42,0x300}},
{"Bmacr",{0x42,0x304}},
{"Btilde",{0x42,0x303}},
{"Buml",{0x42,0x308}},
{"CHcy",{0x427}},
{"Cacute",{0x106}},
{"Cacute",{0x43,0x301}},
{"Cap",{0x22d2}},
{"Cbreve",{0x43,0x306}},
{"Cbring",{0x43,0x32f}},
{"Ccaron",{0x10c}},
{"Ccaron",{0x43,0x30c}},
{"Ccedil",{0xc7}},
{"Ccirc",{0x108}},
{"Ccirc",{0x43,0x302}},
{"Cdot",{0x10a}},
{"Cdot",{0x43,0x307}},
{"Cgrave",{0x43,0x300}},
{"Chi",{0x3a7}},
{"Cmacr",{0x43,0x304}},
{"Ctilde",{0x43,0x303}},
{"Cuml",{0x43,0x308}},
{"Cup",{0x22d3}},
{"DJcy",{0x402}},
{"DScy",{0x405}},
{"DZcy",{0x40f}},
{"Dacute",{0x44,0x301}},
{"Dagger",{0x2021}},
{"Dbreve",{0x44,0x306}},
{"Dbring",{0x44,0x32f}},
{"Dcaron",{0x10e}},
{"Dcaron",{0x44,0x30c}},
{"Dcirc",{0x44,0x302}},
{"Dcy",{0x414}},
{"Ddot",{0x44,0x307}},
{"Delta",{0x394}},
{"Dgr",{0x394}},
{"Dgrave",{0x44,0x300}},
{"Dmacr",{0x44,0x304}},
{"Dot",{0xa8}},
{"DotDot",{0x20dc}},
{"Dstrok",{0x110}},
{"Dtilde",{0x44,0x303}},
{"Duml",{0x44,0x308}},
{"EEacgr",{0x389}},
{"EEgr",{0x397}},
{"ENG",{0x14a}},
{"ETH",{0xd0}},
{"Eacgr",{0x388}},
{"Eacute",{0xc9}},
{"Eacute",{0x45,0x301}},
{"Ebreve",{0x45,0x306}},
{"Ebring",{0x45,0x32f}},
{"Ecaron",{0x11a}},
{"Ecaron",{0x45,0x30c}},
{"Ecirc",{0xca}},
{"Ecirc",{0x45,0x302}},
{"Ecy",{0x42d}},
{"Edot",{0x116}},
{"Edot",{0x45,0x307}},
{"Edotb",{0x1eb8}},
{"Egr",{0x395}},
{"Egrave",{0xc8}},
{"Egrave",{0x45,0x300}},
{"Emacr",{0x112}},
{"Emacr",{0x45,0x304}},
{"Eogon",{0x118}},
{"Epsilon",{0x395}},
{"Eta",{0x397}},
{"Etilde",{0x45,0x303}},
{"Euml",{0xcb}},
{"Euml",{0x45,0x308}},
{"Facute",{0x46,0x301}},
{"Fbreve",{0x46,0x306}},
{"Fbring",{0x46,0x32f}},
{"Fcaron",{0x46,0x30c}},
{"Fcirc",{0x46,0x302}},
{"Fcy",{0x424}},
{"Fdot",{0x46,0x307}},
{"Fgrave",{0x46,0x300}},
{"Fmacr",{0x46,0x304}},
{"Ftilde",{0x46,0x303}},
{"Fuml",{0x46,0x308}},
{"GJcy",{0x403}},
{"Gacute",{0x47,0x301}},
{"Gamma",{0x393}},
{"Gbreve",{0x11e}},
{"Gbreve",{0x47,0x306}},
{"Gbring",{0x47,0x32f}},
{"Gcaron",{0x47,0x30c}},
{"Gcedil",{0x122}},
{"Gcirc",{0x11c}},
{"Gcirc",{0x47,0x302}},
{"Gcy",{0x413}},
{"Gdot",{0x120}},
{"Gdot",{0x47,0x307}},
{"Gg",{0x22d9}},
{"Ggr",{0x393}},
{"Ggrave",{0x47,0x300}},
{"Gmacr",{0x47,0x304}},
{"Gt",{0x226b}},
{"Gtilde",{0x47,0x303}},
{"Guml",{0x47,0x308}},
{"HARDcy",{0x42a}},
{"Hacute",{0x48,0x301}},
{"Hbreve",{0x48,0x306}},
{"Hbring",{0x48,0x32f}},
{"Hcaron",{0x48,0x30c}},
{"Hcirc",{0x124}},
{"Hcirc",{0x48,0x302}},
{"Hdot",{0x48,0x307}},
{"Hgrave",{0x48,0x300}},
{"Hmacr",{0x48,0x304}},
{"Hstrok",{0x126}},
{"Htilde",{0x48,0x303}},
{"Huml",{0x48,0x308}},
{"IEcy",{0x415}},
{"IJlig",{0x132}},
{"IOcy",{0x401}},
{"Iacgr",{0x38a}},
{"Iacute",{0xcd}},
{"Iacute",{0x49,0x301}},
{"Ibreve",{0x49,0x306}},
{"Ibring",{0x49,0x32f}},
{"Icaron",{0x49,0x30c}},
{"Icirc",{0xce}},
{"Icirc",{0x49,0x302}},
{"Icy",{0x418}},
{"Idigr",{0x3aa}},
{"Idot",{0x130}},
{"Idot",{0x49,0x307}},
{"Igr",{0x399}},
{"Igrave",{0xcc}},
{"Igrave",{0x49,0x300}},
{"Imacr",{0x12a}},
{"Imacr",{0x49,0x304}},
{"Iogon",{0x12e}},
{"Iota",{0x399}},
{"Itilde",{0x128}},
{"Itilde",{0x49,0x303}},
{"Iukcy",{0x406}},
{"Iuml",{0xcf}},
{"Iuml",{0x49,0x308}},
{"Jacute",{0x4a,0x301}},
{"Jbreve",{0x4a,0x306}},
{"Jbring",{0x4a,0x32f}},
{"Jcaron",{0x4a,0x30c}},
{"Jcirc",{0x134}},
{"Jcirc",{0x4a,0x302}},
{"Jcy",{0x419}},
{"Jdot",{0x4a,0x307}},
{"Jgrave",{0x4a,0x300}},
{"Jmacr",{0x4a,0x304}},
{"Jsercy",{0x408}},
{"Jtilde",{0x4a,0x303}},
{"Jukcy",{0x404}},
{"Juml",{0x4a,0x308}},
{"KHcy",{0x425}},
{"KHgr",{0x3a7}},
{"KJcy",{0x40c}},
{"Kacute",{0x4b,0x301}},
{"Kappa",{0x39a}},
{"Kbreve",{0x4b,0x306}},
{"Kbring",{0x4b,0x32f}},
{"Kcaron",{0x4b,0x30c}},
{"Kcedil",{0x136}},
{"Kcirc",{0x4b,0x302}},
{"Kcy",{0x41a}},
{"Kdot",{0x4b,0x307}},
{"Kgr",{0x39a}},
{"Kgrave",{0x4b,0x300}},
{"Kmacr",{0x4b,0x304}},
{"Ktilde",{0x4b,0x303}},
{"Kuml",{0x4b,0x308}},
{"LJcy",{0x409}},
{"Lacute",{0x139}},
{"Lacute",{0x4c,0x301}},
{"Lambda",{0x39b}},
{"Larr",{0x219e}},
{"Lbreve",{0x4c,0x306}},
{"Lbring",{0x4c,0x32f}},
{"Lcaron",{0x13d}},
{"Lcaron",{0x4c,0x30c}},
{"Lcedil",{0x13b}},
{"Lcirc",{0x4c,0x302}},
{"Lcy",{0x41b}},
{"Ldot",{0x4c,0x307}},
{"Lgr",{0x39b}},
{"Lgrave",{0x4c,0x300}},
{"Ll",{0x22d8}},
{"Lmacr",{0x4c,0x304}},
{"Lmidot",{0x13f}},
{"Lstrok",{0x141}},
{"Lt",{0x226a}},
{"Ltilde",{0x4c,0x303}},
{"Luml",{0x4c,0x308}},
{"Macute",{0x4d,0x301}},
{"Mbreve",{0x4d,0x306}},
{"Mbring",{0x4d,0x32f}},
{"Mcaron",{0x4d,0x30c}},
{"Mcirc",{0x4d,0x302}},
{"Mcy",{0x41c}},
{"Mdot",{0x4d,0x307}},
{"Mgr",{0x39c}},
{"Mgrave",{0x4d,0x300}},
{"Mmacr",{0x4d,0x304}},
{"Mtilde",{0x4d,0x303}},
{"Mu",{0x39c}},
{"Muml",{0x4d,0x308}},
{"NJcy",{0x40a}},
{"Nacute",{0x143}},
{"Nacute",{0x4e,0x301}},
{"Nbreve",{0x4e,0x306}},
{"Nbring",{0x4e,0x32f}},
{"Ncaron",{0x147}},
{"Ncaron",{0x4e,0x30c}},
{"Ncedil",{0x145}},
{"Ncirc",{0x4e,0x302}},
{"Ncy",{0x41d}},
{"Ndot",{0x4e,0x307}},
{"Ngr",{0x39d}},
{"Ngrave",{0x4e,0x300}},
{"Nmacr",{0x4e,0x304}},
{"Ntilde",{0xd1}},
{"Ntilde",{0x4e,0x303}},
{"Nu",{0x39d}},
{"Numl",{0x4e,0x308}},
{"OElig",{0x152}},
{"OHacgr",{0x38f}},
{"OHgr",{0x3a9}},
{"Oacgr",{0x38c}},
{"Oacute",{0xd3}},
{"Oacute",{0x4f,0x301}},
{"Obreve",{0x4f,0x306}},
{"Obring",{0x4f,0x32f}},
{"Ocaron",{0x1d1}},
{"Ocaron",{0x4f,0x30c}},
{"Ocirc",{0xd4}},
{"Ocirc",{0x4f,0x302}},
{"Ocy",{0x41e}},
{"Odblac",{0x150}},
{"Odot",{0x4f,0x307}},
{"Odotb",{0x1ecc}},
{"Ogr",{0x39f}},
{"Ograve",{0xd2}},
{"Ograve",{0x4f,0x300}},
{"Omacr",{0x14c}},
{"Omacr",{0x4f,0x304}},
{"Omega",{0x3a9}},
{"Omicron",{0x39f}},
{"Oslash",{0xd8}},
{"Otilde",{0xd5}},
{"Otilde",{0x4f,0x303}},
{"Ouml",{0xd6}},
{"Ouml",{0x4f,0x308}},
{"PHgr",{0x3a6}},
{"PSgr",{0x3a8}},
{"Pacute",{0x50,0x301}},
{"Pbreve",{0x50,0x306}},
{"Pbring",{0x50,0x32f}},
{"Pcaron",{0x50,0x30c}},
{"Pcirc",{0x50,0x302}},
{"Pcy",{0x41f}},
{"Pdot",{0x50,0x307}},
{"Pgr",{0x3a0}},
{"Pgrave",{0x50,0x300}},
{"Phi",{0x3a6}},
{"Pi",{0x3a0}},
{"Pmacr",{0x50,0x304}},
{"Prime",{0x2033}},
{"Psi",{0x3a8}},
{"Ptilde",{0x50,0x303}},
{"Puml",{0x50,0x308}},
{"Qacute",{0x51,0x301}},
{"Qbreve",{0x51,0x306}},
{"Qbring",{0x51,0x32f}},
{"Qcaron",{0x51,0x30c}},
{"Qcirc",{0x51,0x302}},
{"Qdot",{0x51,0x307}},
{"Qgrave",{0x51,0x300}},
{"Qmacr",{0x51,0x304}},
{"Qtilde",{0x51,0x303}},
{"Quml",{0x51,0x308}},
{"Racute",{0x154}},
{"Racute",{0x52,0x301}},
{"Rarr",{0x21a0}},
{"Rbreve",{0x52,0x306}},
{"Rbring",{0x52,0x32f}},
{"Rcaron",{0x158}},
{"Rcaron",{0x52,0x30c}},
{"Rcedil",{0x156}},
{"Rcirc",{0x52,0x302}},
{"Rcy",{0x420}},
{"Rdot",{0x52,0x307}},
{"Rgr",{0x3a1}},
{"Rgrave",{0x52,0x300}},
{"Rho",{0x3a1}},
{"Rmacr",{0x52,0x304}},
{"Rtilde",{0x52,0x303}},
{"Ruml",{0x52,0x308}},
{"SHCHcy",{0x429}},
{"SHcy",{0x428}},
{"SOFTcy",{0x42c}},
{"Sacute",{0x15a}},
{"Sacute",{0x53,0x301}},
{"Sbreve",{0x53,0x306}},
{"Sbring",{0x53,0x32f}},
{"Scaron",{0x160}},
{"Scaron",{0x53,0x30c}},
{"Scedil",{0x15e}},
{"Scirc",{0x15c}},
{"Scirc",{0x53,0x302}},
{"Scy",{0x421}},
{"Sdot",{0x53,0x307}},
{"Sgr",{0x3a3}},
{"Sgrave",{0x53,0x300}},
{"Sigma",{0x3a3}},
{"Smacr",{0x53,0x304}},
{"Stilde",{0x53,0x303}},
{"Sub",{0x22d0}},
{"Suml",{0x53,0x308}},
{"Sup",{0x22d1}},
{"THORN",{0xde}},
{"THgr",{0x398}},
{"TSHcy",{0x40b}},
{"TScy",{0x426}},
{"Tacute",{0x54,0x301}},
{"Tau",{0x3a4}},
{"Tbreve",{0x54,0x306}},
{"Tbring",{0x54,0x32f}},
{"Tcaron",{0x164}},
{"Tcaron",{0x54,0x30c}},
{"Tcedil",{0x162}},
{"Tcirc",{0x54,0x302}},
{"Tcy",{0x422}},
{"Tdot",{0x54,0x307}},
{"Tgr",{0x3a4}},
{"Tgrave",{0x54,0x300}},
{"Theta",{0x398}},
{"Tmacr",{0x54,0x304}},
{"Tstrok",{0x166}},
{"Ttilde",{0x54,0x303}},
{"Tuml",{0x54,0x308}},
{"Uacgr",{0x38e}},
{"Uacute",{0xda}},
{"Uacute",{0x55,0x301}},
{"Ubrcy",{0x40e}},
{"Ubreve",{0x16c}},
{"Ubreve",{0x55,0x306}},
{"Ubring",{0x55,0x32f}},
{"Ucaron",{0x55,0x30c}},
{"Ucirc",{0xdb}},
{"Ucirc",{0x55,0x302}},
{"Ucy",{0x423}},
{"Udblac",{0x170}},
{"Udigr",{0x3ab}},
{"Udot",{0x55,0x307}},
{"Ugr",{0x3a5}},
{"Ugrave",{0xd9}},
{"Ugrave",{0x55,0x300}},
{"Umacr",{0x16a}},
{"Umacr",{0x55,0x304}},
{"Uogon",{0x172}},
{"Upsi",{0x3a5}},
{"Upsilon",{0x3a5}},
{"Uring",{0x16e}},
{"Utilde",{0x168}},
{"Utilde",{0x55,0x303}},
{"Uuml",{0xdc}},
{"Uuml",{0x55,0x308}},
{"Vacute",{0x56,0x301}},
{"Vbreve",{0x56,0x306}},
{"Vbring",{0x56,0x32f}},
{"Vcaron",{0x56,0x30c}},
{"Vcirc",{0x56,0x302}},
{"Vcy",{0x412}},
{"Vdash",{0x22a9}},
{"Vdot",{0x56,0x307}},
{"Verbar",{0x2016}},
{"Vgrave",{0x56,0x300}},
{"Vmacr",{0x56,0x304}},
{"Vtilde",{0x56,0x303}},
{"Vuml",{0x56,0x308}},
{"Vvdash",{0x22aa}},
{"Wacute",{0x57,0x301}},
{"Wbreve",{0x57,0x306}},
{"Wbring",{0x57,0x32f}},
{"Wcaron",{0x57,0x30c}},
{"Wcirc",{0x174}},
{"Wcirc",{0x57,0x302}},
{"Wdot",{0x57,0x307}},
{"Wgrave",{0x57,0x300}},
{"Wmacr",{0x57,0x304}},
{"Wtilde",{0x57,0x303}},
{"Wuml",{0x57,0x308}},
{"Xacute",{0x58,0x301}},
{"Xbreve",{0x58,0x306}},
{"Xbring",{0x58,0x32f}},
{"Xcaron",{0x58,0x30c}},
{"Xcirc",{0x58,0x302}},
{"Xdot",{0x58,0x307}},
{"Xgr",{0x39e}},
{"Xgrave",{0x58,0x300}},
{"Xi",{0x39e}},
{"Xmacr",{0x58,0x304}},
{"Xtilde",{0x58,0x303}},
{"Xuml",{0x58,0x308}},
{"YAcy",{0x42f}},
{"YIcy",{0x407}},
{"YUcy",{0x42e}},
{"Yacute",{0xdd}},
{"Yacute",{0x59,0x301}},
{"Ybreve",{0x59,0x306}},
{"Ybring",{0x59,0x32f}},
{"Ycaron",{0x59,0x30c}},
{"Ycirc",{0x176}},
{"Ycirc",{0x59,0x302}},
{"Ycy",{0x42b}},
{"Ydot",{0x59,0x307}},
{"Ygrave",{0x59,0x300}},
{"Ymacr",{0x59,0x304}},
{"Ytilde",{0x59,0x303}},
{"Yuml",{0x178}},
{"Yuml",{0x59,0x308}},
{"ZHcy",{0x416}},
{"Zacute",{0x179}},
{"Zacute",{0x5a,0x301}},
{"Zbreve",{0x5a,0x306}},
{"Zbring",{0x5a,0x32f}},
{"Zcaron",{0x17d}},
{"Zcaron",{0x5a,0x30c}},
{"Zcirc",{0x5a,0x302}},
{"Zcy",{0x417}},
{"Zdot",{0x17b}},
{"Zdot",{0x5a,0x307}},
{"Zeta",{0x396}},
{"Zgr",{0x396}},
{"Zgrave",{0x5a,0x300}},
{"Zmacr",{0x5a,0x304}},
{"Ztilde",{0x5a,0x303}},
{"Zuml",{0x5a,0x308}},
{"aacgr",{0x3ac}},
{"aacute",{0xe1}},
{"aacute",{0x61,0x301}},
{"abreve",{0x103}},
{"abreve",{0x61,0x306}},
{"abring",{0x61,0x32f}},
{"acaron",{0x61,0x30c}},
{"acirc",{0xe2}},
{"acirc",{0x61,0x302}},
{"acute",{0xb4}},
{"acy",{0x430}},
{"adot",{0x61,0x307}},
{"aelig",{0xe6}},
{"agr",{0x3b1}},
{"agrave",{0xe0}},
{"agrave",{0x61,0x300}},
{"alefsym",{0x2135}},
{"aleph",{0x2135}},
{"alpha",{0x3b1}},
{"amacr",{0x101}},
{"amacr",{0x61,0x304}},
{"amalg",{0x2210}},
{"amp",{0x26}},
{"and",{0x2227}},
{"ang",{0x2220}},
{"ang90",{0x221f}},
{"angmsd",{0x2221}},
{"angsph",{0x2222}},
{"angst",{0x212b}},
{"aogon",{0x105}},
{"ap",{0x2248}},
{"ape",{0x224a}},
{"apos",{0x27}},
{"apos",{0x2bc}},
{"aring",{0xe5}},
{"ast",{0x2a}},
{"asymp",{0x2248}},
{"atilde",{0xe3}},
{"atilde",{0x61,0x303}},
{"auml",{0xe4}},
{"auml",{0x61,0x308}},
{"b.Delta",{0x394}},
{"b.Gamma",{0x393}},
{"b.Lambda",{0x39b}},
{"b.Omega",{0x3a9}},
{"b.Phi",{0x3a6}},
{"b.Pi",{0x3a0}},
{"b.Psi",{0x3a8}},
{"b.Sigma",{0x3a3}},
{"b.Theta",{0x398}},
{"b.Upsi",{0x3a5}},
{"b.Xi",{0x39e}},
{"b.alpha",{0x3b1}},
{"b.beta",{0x3b2}},
{"b.chi",{0x3c7}},
{"b.delta",{0x3b4}},
{"b.epsi",{0x3b5}},
{"b.epsis",{0x3b5}},
{"b.epsiv",{0x3b5}},
{"b.eta",{0x3b7}},
{"b.gamma",{0x3b3}},
{"b.gammad",{0x3dc}},
{"b.iota",{0x3b9}},
{"b.kappa",{0x3ba}},
{"b.kappav",{0x3f0}},
{"b.lambda",{0x3bb}},
{"b.mu",{0x3bc}},
{"b.nu",{0x3bd}},
{"b.omega",{0x3ce}},
{"b.phis",{0x3c6}},
{"b.phiv",{0x3d5}},
{"b.pi",{0x3c0}},
{"b.piv",{0x3d6}},
{"b.psi",{0x3c8}},
{"b.rho",{0x3c1}},
{"b.rhov",{0x3f1}},
{"b.sigma",{0x3c3}},
{"b.sigmav",{0x3c2}},
{"b.tau",{0x3c4}},
{"b.thetas",{0x3b8}},
{"b.thetav",{0x3d1}},
{"b.upsi",{0x3c5}},
{"b.xi",{0x3be}},
{"b.zeta",{0x3b6}},
{"bacute",{0x62,0x301}},
{"barwed",{0x22bc}},
{"bbreve",{0x62,0x306}},
{"bbring",{0x62,0x32f}},
{"bcaron",{0x62,0x30c}},
{"bcirc",{0x62,0x302}},
{"bcong",{0x224c}},
{"bcy",{0x431}},
{"bdot",{0x62,0x307}},
{"bdquo",{0x201e}},
{"becaus",{0x2235}},
{"bepsi",{0x220d}},
{"bernou",{0x212c}},
{"beta",{0x3b2}},
{"beth",{0x2136}},
{"bgr",{0x3b2}},
{"bgrave",{0x62,0x300}},
{"blank",{0x2423}},
{"blk12",{0x2592}},
{"blk14",{0x2591}},
{"blk34",{0x2593}},
{"block",{0x2588}},
{"bmacr",{0x62,0x304}},
{"bottom",{0x22a5}},
{"bowtie",{0x22c8}},
{"boxDL",{0x2557}},
{"boxDR",{0x2554}},
{"boxDl",{0x2556}},
{"boxDr",{0x2553}},
{"boxH",{0x2550}},
{"boxHD",{0x2566}},
{"boxHU",{0x2569}},
{"boxHd",{0x2564}},
{"boxHu",{0x2567}},
{"boxUL",{0x255d}},
{"boxUR",{0x255a}},
{"boxUl",{0x255c}},
{"boxUr",{0x2559}},
{"boxV",{0x2551}},
{"boxVH",{0x256c}},
{"boxVL",{0x2563}},
{"boxVR",{0x2560}},
{"boxVh",{0x256b}},
{"boxVl",{0x2562}},
{"boxVr",{0x255f}},
{"boxdL",{0x2555}},
{"boxdR",{0x2552}},
{"boxdl",{0x2510}},
{"boxdr",{0x250c}},
{"boxh",{0x2500}},
{"boxhD",{0x2565}},
{"boxhU",{0x2568}},
{"boxhd",{0x252c}},
{"boxhu",{0x2534}},
{"boxuL",{0x255b}},
{"boxuR",{0x2558}},
{"boxul",{0x2518}},
{"boxur",{0x2514}},
{"boxv",{0x2502}},
{"boxvH",{0x256a}},
{"boxvL",{0x2561}},
{"boxvR",{0x255e}},
{"boxvh",{0x253c}},
{"boxvl",{0x2524}},
{"boxvr",{0x251c}},
{"bprime",{0x2035}},
{"breve",{0x2d8}},
{"brvbar",{0xa6}},
{"bsim",{0x223d}},
{"bsime",{0x22cd}},
{"bsol",{0x5c}},
{"btilde",{0x62,0x303}},
{"bull",{0x2022}},
{"buml",{0x62,0x308}},
{"bump",{0x224e}},
{"bumpe",{0x224f}},
{"cacute",{0x107}},
{"cacute",{0x63,0x301}},
{"cap",{0x2229}},
{"caret",{0x2041}},
{"caron",{0x2c7}},
{"cbreve",{0x63,0x306}},
{"cbring",{0x63,0x32f}},
{"ccaron",{0x10d}},
{"ccaron",{0x63,0x30c}},
{"ccedil",{0xe7}},
{"ccirc",{0x109}},
{"ccirc",{0x63,0x302}},
{"cdot",{0x10b}},
{"cdot",{0x63,0x307}},
{"cedil",{0xb8}},
{"cent",{0xa2}},
{"cgrave",{0x63,0x300}},
{"chcy",{0x447}},
{"check",{0x2713}},
{"chi",{0x3c7}},
{"cir",{0x25cb}},
{"circ",{0x2c6}},
{"circlef",{0x25cf}},
{"circlefb",{0x25d2}},
{"circlefl",{0x25d0}},
{"circlefr",{0x25d1}},
{"circleft",{0x25d3}},
{"cire",{0x2257}},
{"clubs",{0x2663}},
{"cmacr",{0x63,0x304}},
{"colon",{0x3a}},
{"colone",{0x2254}},
{"comma",{0x2c}},
{"commat",{0x40}},
{"comp",{0x2201}},
{"compfn",{0x2218}},
{"cong",{0x2245}},
{"conint",{0x222e}},
{"coprod",{0x2210}},
{"copy",{0xa9}},
{"copysr",{0x2117}},
{"crarr",{0x21b5}},
{"cross",{0x2717}},
{"ctilde",{0x63,0x303}},
{"cuepr",{0x22de}},
{"cuesc",{0x22df}},
{"cularr",{0x21b6}},
{"cuml",{0x63,0x308}},
{"cup",{0x222a}},
{"cupre",{0x227c}},
{"curarr",{0x21b7}},
{"curren",{0xa4}},
{"cuvee",{0x22ce}},
{"cuwed",{0x22cf}},
{"dArr",{0x21d3}},
{"dacute",{0x64,0x301}},
{"dagger",{0x2020}},
{"daleth",{0x2138}},
{"darr",{0x2193}},
{"darr2",{0x21ca}},
{"dash",{0x2010}},
{"dashv",{0x22a3}},
{"dblac",{0x2dd}},
{"dbreve",{0x64,0x306}},
{"dbring",{0x64,0x32f}},
{"dcaron",{0x10f}},
{"dcaron",{0x64,0x30c}},
{"dcirc",{0x64,0x302}},
{"dcy",{0x434}},
{"ddot",{0x64,0x307}},
{"deg",{0xb0}},
{"delta",{0x3b4}},
{"dgr",{0x3b4}},
{"dgrave",{0x64,0x300}},
{"dharl",{0x21c3}},
{"dharr",{0x21c2}},
{"diam",{0x22c4}},
{"diamondf",{0x25c6}},
{"diams",{0x2666}},
{"die",{0xa8}},
{"divide",{0xf7}},
{"divonx",{0x22c7}},
{"djcy",{0x452}},
{"dlarr",{0x2199}},
{"dlcorn",{0x231e}},
{"dlcrop",{0x230d}},
{"dmacr",{0x64,0x304}},
{"dollar",{0x24}},
{"dot",{0x2d9}},
{"drarr",{0x2198}},
{"drcorn",{0x231f}},
{"drcrop",{0x230c}},
{"dscy",{0x455}},
{"dstrok",{0x111}},
{"dtilde",{0x64,0x303}},
{"dtri",{0x25bf}},
{"dtrif",{0x25be}},
{"duml",{0x64,0x308}},
{"dzcy",{0x45f}},
{"eDot",{0x2251}},
{"eacgr",{0x3ad}},
{"eacute",{0xe9}},
{"eacute",{0x65,0x301}},
{"ebreve",{0x65,0x306}},
{"ebring",{0x65,0x32f}},
{"ecaron",{0x11b}},
{"ecaron",{0x65,0x30c}},
{"ecir",{0x2256}},
{"ecirc",{0xea}},
{"ecirc",{0x65,0x302}},
{"ecolon",{0x2255}},
{"ecy",{0x44d}},
{"edot",{0x117}},
{"edot",{0x65,0x307}},
{"edotb",{0x1eb9}},
{"eeacgr",{0x3ae}},
{"eegr",{0x3b7}},
{"efDot",{0x2252}},
{"egr",{0x3b5}},
{"egrave",{0xe8}},
{"egrave",{0x65,0x300}},
{"egs",{0x22dd}},
{"ell",{0x2113}},
{"els",{0x22dc}},
{"emacr",{0x113}},
{"emacr",{0x65,0x304}},
{"empty",{0x2205}},
{"emsp",{0x2003}},
{"emsp13",{0x2004}},
{"emsp14",{0x2005}},
{"eng",{0x14b}},
{"ensp",{0x2002}},
{"eogon",{0x119}},
{"epsi",{0x3b5}},
{"epsilon",{0x3b5}},
{"epsis",{0x220a}},
{"equals",{0x3d}},
{"equiv",{0x2261}},
{"erDot",{0x2253}},
{"esdot",{0x2250}},
{"eta",{0x3b7}},
{"eth",{0xf0}},
{"etilde",{0x65,0x303}},
{"euml",{0xeb}},
{"euml",{0x65,0x308}},
{"euro",{0x20ac}},
{"excl",{0x21}},
{"exist",{0x2203}},
{"facute",{0x66,0x301}},
{"fbreve",{0x66,0x306}},
{"fbring",{0x66,0x32f}},
{"fcaron",{0x66,0x30c}},
{"fcirc",{0x66,0x302}},
{"fcy",{0x444}},
{"fdot",{0x66,0x307}},
{"female",{0x2640}},
{"ffilig",{0xfb03}},
{"fflig",{0xfb00}},
{"ffllig",{0xfb04}},
{"fgrave",{0x66,0x300}},
{"filig",{0xfb01}},
{"flat",{0x266d}},
{"fllig",{0xfb02}},
{"fmacr",{0x66,0x304}},
{"fnof",{0x192}},
{"forall",{0x2200}},
{"fork",{0x22d4}},
{"frac12",{0xbd}},
{"frac13",{0x2153}},
{"frac14",{0xbc}},
{"frac15",{0x2155}},
{"frac16",{0x2159}},
{"frac18",{0x215b}},
{"frac23",{0x2154}},
{"frac25",{0x2156}},
{"frac34",{0xbe}},
{"frac35",{0x2157}},
{"frac38",{0x215c}},
{"frac45",{0x2158}},
{"frac56",{0x215a}},
{"frac58",{0x215d}},
{"frac78",{0x215e}},
{"frasl",{0x2044}},
{"frown",{0x2322}},
{"ftilde",{0x66,0x303}},
{"fuml",{0x66,0x308}},
{"gE",{0x2267}},
{"gacute",{0x1f5}},
{"gacute",{0x67,0x301}},
{"gamma",{0x3b3}},
{"gammad",{0x3dc}},
{"gbreve",{0x11f}},
{"gbreve",{0x67,0x306}},
{"gbring",{0x67,0x32f}},
{"gcaron",{0x67,0x30c}},
{"gcedil",{0x123}},
{"gcirc",{0x11d}},
{"gcirc",{0x67,0x302}},
{"gcy",{0x433}},
{"gdot",{0x121}},
{"gdot",{0x67,0x307}},
{"ge",{0x2265}},
{"gel",{0x22db}},
{"ges",{0x2265}},
{"ggr",{0x3b3}},
{"ggrave",{0x67,0x300}},
{"gimel",{0x2137}},
{"gjcy",{0x453}},
{"gl",{0x2277}},
{"gmacr",{0x67,0x304}},
{"gnE",{0x2269}},
{"gne",{0x2269}},
{"gnsim",{0x22e7}},
{"grave",{0x60}},
{"gsdot",{0x22d7}},
{"gsim",{0x2273}},
{"gt",{0x3e}},
{"gtilde",{0x67,0x303}},
{"guml",{0x67,0x308}},
{"gvnE",{0x2269}},
{"hArr",{0x21d4}},
{"hacute",{0x68,0x301}},
{"hairsp",{0x200a}},
{"half",{0xbd}},
{"hamilt",{0x210b}},
{"hardcy",{0x44a}},
{"harr",{0x2194}},
{"harrw",{0x21ad}},
{"hbreve",{0x68,0x306}},
{"hbring",{0x68,0x32f}},
{"hcaron",{0x68,0x30c}},
{"hcirc",{0x125}},
{"hcirc",{0x68,0x302}},
{"hdot",{0x68,0x307}},
{"hearts",{0x2665}},
{"hellip",{0x2026}},
{"hgrave",{0x68,0x300}},
{"hmacr",{0x68,0x304}},
{"horbar",{0x2015}},
{"hstrok",{0x127}},
{"htilde",{0x68,0x303}},
{"huml",{0x68,0x308}},
{"hybull",{0x2043}},
{"hyphen",{0x2d}},
{"iacgr",{0x3af}},
{"iacute",{0xed}},
{"iacute",{0x69,0x301}},
{"ibreve",{0x69,0x306}},
{"ibring",{0x69,0x32f}},
{"icaron",{0x69,0x30c}},
{"icirc",{0xee}},
{"icirc",{0x69,0x302}},
{"icy",{0x438}},
{"idiagr",{0x390}},
{"idigr",{0x3ca}},
{"idot",{0x69,0x307}},
{"iecy",{0x435}},
{"iexcl",{0xa1}},
{"iff",{0x21d4}},
{"igr",{0x3b9}},
{"igrave",{0xec}},
{"igrave",{0x69,0x300}},
{"ijlig",{0x133}},
{"imacr",{0x12b}},
{"imacr",{0x69,0x304}},
{"image",{0x2111}},
{"incare",{0x2105}},
{"infin",{0x221e}},
{"inodot",{0x131}},
{"inodot",{0x131}},
{"int",{0x222b}},
{"intcal",{0x22ba}},
{"iocy",{0x451}},
{"iogon",{0x12f}},
{"iota",{0x3b9}},
{"iquest",{0xbf}},
{"isin",{0x2208}},
{"itilde",{0x129}},
{"itilde",{0x69,0x303}},
{"iukcy",{0x456}},
{"iuml",{0xef}},
{"iuml",{0x69,0x308}},
{"jacute",{0x6a,0x301}},
{"jbreve",{0x6a,0x306}},
{"jbring",{0x6a,0x32f}},
{"jcaron",{0x6a,0x30c}},
{"jcirc",{0x135}},
{"jcirc",{0x6a,0x302}},
{"jcy",{0x439}},
{"jdot",{0x6a,0x307}},
{"jgrave",{0x6a,0x300}},
{"jmacr",{0x6a,0x304}},
{"jsercy",{0x458}},
{"jtilde",{0x6a,0x303}},
{"jukcy",{0x454}},
{"juml",{0x6a,0x308}},
{"kacute",{0x6b,0x301}},
{"kappa",{0x3ba}},
{"kappav",{0x3f0}},
{"kbreve",{0x6b,0x306}},
{"kbring",{0x6b,0x32f}},
{"kcaron",{0x6b,0x30c}},
{"kcedil",{0x137}},
{"kcirc",{0x6b,0x302}},
{"kcy",{0x43a}},
{"kdot",{0x6b,0x307}},
{"kgr",{0x3ba}},
{"kgrave",{0x6b,0x300}},
{"kgreen",{0x138}},
{"khcy",{0x445}},
{"khgr",{0x3c7}},
{"kjcy",{0x45c}},
{"kmacr",{0x6b,0x304}},
{"ktilde",{0x6b,0x303}},
{"kuml",{0x6b,0x308}},
{"lAarr",{0x21da}},
{"lArr",{0x21d0}},
{"lE",{0x2266}},
{"lacute",{0x13a}},
{"lacute",{0x6c,0x301}},
{"lagran",{0x2112}},
{"lambda",{0x3bb}},
{"lang",{0x2329}},
{"laquo",{0xab}},
{"larr",{0x2190}},
{"larr2",{0x21c7}},
{"larrhk",{0x21a9}},
{"larrlp",{0x21ab}},
{"larrtl",{0x21a2}},
{"lbreve",{0x6c,0x306}},
{"lbring",{0x6c,0x32f}},
{"lcaron",{0x13e}},
{"lcaron",{0x6c,0x30c}},
{"lcedil",{0x13c}},
{"lceil",{0x2308}},
{"lcirc",{0x6c,0x302}},
{"lcub",{0x7b}},
{"lcy",{0x43b}},
{"ldot",{0x22d6}},
{"ldot",{0x6c,0x307}},
{"ldquo",{0x201c}},
{"ldquor",{0x201e}},
{"le",{0x2264}},
{"leg",{0x22da}},
{"les",{0x2264}},
{"lfloor",{0x230a}},
{"lg",{0x2276}},
{"lgr",{0x3bb}},
{"lgrave",{0x6c,0x300}},
{"lhard",{0x21bd}},
{"lharu",{0x21bc}},
{"lhblk",{0x2584}},
{"ljcy",{0x459}},
{"lmacr",{0x6c,0x304}},
{"lmidot",{0x140}},
{"lnE",{0x2268}},
{"lne",{0x2268}},
{"lnsim",{0x22e6}},
{"lowast",{0x2217}},
{"lowbar",{0x5f}},
{"loz",{0x25ca}},
{"loz",{0x2727}},
{"lozf",{0x2726}},
{"lpar",{0x28}},
{"lrarr2",{0x21c6}},
{"lrhar2",{0x21cb}},
{"lrm",{0x200e}},
{"lsaquo",{0x2039}},
{"lsh",{0x21b0}},
{"lsim",{0x2272}},
{"lsqb",{0x5b}},
{"lsquo",{0x2018}},
{"lsquor",{0x201a}},
{"lstrok",{0x142}},
{"lt",{0x3c}},
{"lthree",{0x22cb}},
{"ltilde",{0x6c,0x303}},
{"ltimes",{0x22c9}},
{"ltri",{0x25c3}},
{"ltrie",{0x22b4}},
{"ltrif",{0x25c2}},
{"luml",{0x6c,0x308}},
{"lvnE",{0x2268}},
{"macr",{0xaf}},
{"macute",{0x6d,0x301}},
{"male",{0x2642}},
{"malt",{0x2720}},
{"map",{0x21a6}},
{"marker",{0x25ae}},
{"mbreve",{0x6d,0x306}},
{"mbring",{0x6d,0x32f}},
{"mcaron",{0x6d,0x30c}},
{"mcirc",{0x6d,0x302}},
{"mcy",{0x43c}},
{"mdash",{0x2014}},
{"mdot",{0x6d,0x307}},
{"mgr",{0x3bc}},
{"mgrave",{0x6d,0x300}},
{"micro",{0xb5}},
{"mid",{0x2223}},
{"middot",{0xb7}},
{"minus",{0x2212}},
{"minusb",{0x229f}},
{"mldr",{0x2026}},
{"mmacr",{0x6d,0x304}},
{"mnplus",{0x2213}},
{"models",{0x22a7}},
{"mtilde",{0x6d,0x303}},
{"mu",{0x3bc}},
{"mumap",{0x22b8}},
{"muml",{0x6d,0x308}},
{"nVDash",{0x22af}},
{"nVdash",{0x22ae}},
{"nabla",{0x2207}},
{"nacute",{0x144}},
{"nacute",{0x6e,0x301}},
{"nap",{0x2249}},
{"napos",{0x149}},
{"natur",{0x266e}},
{"nbreve",{0x6e,0x306}},
{"nbring",{0x6e,0x32f}},
{"nbsp",{0xa0}},
{"ncaron",{0x148}},
{"ncaron",{0x6e,0x30c}},
{"ncedil",{0x146}},
{"ncirc",{0x6e,0x302}},
{"ncong",{0x2247}},
{"ncy",{0x43d}},
{"ndash",{0x2013}},
{"ndot",{0x6e,0x307}},
{"ne",{0x2260}},
{"nearr",{0x2197}},
{"nequiv",{0x2262}},
{"nexist",{0x2204}},
{"nge",{0x2271}},
{"nges",{0x2271}},
{"ngr",{0x3bd}},
{"ngrave",{0x6e,0x300}},
{"ngt",{0x226f}},
{"nhArr",{0x21ce}},
{"nharr",{0x21ae}},
{"ni",{0x220b}},
{"njcy",{0x45a}},
{"nlArr",{0x21cd}},
{"nlarr",{0x219a}},
{"nldr",{0x2025}},
{"nle",{0x2270}},
{"nles",{0x2270}},
{"nlt",{0x226e}},
{"nltri",{0x22ea}},
{"nltrie",{0x22ec}},
{"nmacr",{0x6e,0x304}},
{"nmid",{0x2224}},
{"not",{0xac}},
{"notin",{0x2209}},
{"npar",{0x2226}},
{"npr",{0x2280}},
{"npre",{0x22e0}},
{"nrArr",{0x21cf}},
{"nrarr",{0x219b}},
{"nrtri",{0x22eb}},
{"nrtrie",{0x22ed}},
{"nsc",{0x2281}},
{"nsce",{0x22e1}},
{"nsim",{0x2241}},
{"nsime",{0x2244}},
{"nspar",{0x2226}},
{"nsub",{0x2284}},
{"nsubE",{0x2288}},
{"nsube",{0x2288}},
{"nsup",{0x2285}},
{"nsupE",{0x2289}},
{"nsupe",{0x2289}},
{"ntilde",{0xf1}},
{"ntilde",{0x6e,0x303}},
{"nu",{0x3bd}},
{"num",{0x23}},
{"numero",{0x2116}},
{"numl",{0x6e,0x308}},
{"numsp",{0x2007}},
{"nvDash",{0x22ad}},
{"nvdash",{0x22ac}},
{"nwarr",{0x2196}},
{"oS",{0x24c8}},
{"oacgr",{0x3cc}},
{"oacute",{0xf3}},
{"oacute",{0x6f,0x301}},
{"oast",{0x229b}},
{"obreve",{0x6f,0x306}},
{"obring",{0x6f,0x32f}},
{"ocaron",{0x1d2}},
{"ocaron",{0x6f,0x30c}},
{"ocir",{0x229a}},
{"ocirc",{0xf4}},
{"ocirc",{0x6f,0x302}},
{"ocy",{0x43e}},
{"odash",{0x229d}},
{"odblac",{0x151}},
{"odot",{0x2299}},
{"odot",{0x6f,0x307}},
{"odotb",{0x1ecd}},
{"oelig",{0x153}},
{"ogon",{0x2db}},
{"ogr",{0x3bf}},
{"ograve",{0xf2}},
{"ograve",{0x6f,0x300}},
{"ohacgr",{0x3ce}},
{"ohgr",{0x3c9}},
{"ohm",{0x2126}},
{"olarr",{0x21ba}},
{"oline",{0x203e}},
{"omacr",{0x14d}},
{"omacr",{0x6f,0x304}},
{"omega",{0x3c9}},
{"omicron",{0x3bf}},
{"ominus",{0x2296}},
{"oplus",{0x2295}},
{"or",{0x2228}},
{"orarr",{0x21bb}},
{"order",{0x2134}},
{"ordf",{0xaa}},
{"ordm",{0xba}},
{"oslash",{0xf8}},
{"osol",{0x2298}},
{"otilde",{0xf5}},
{"otilde",{0x6f,0x303}},
{"otimes",{0x2297}},
{"ouml",{0xf6}},
{"ouml",{0x6f,0x308}},
{"pacute",{0x70,0x301}},
{"page",{0xc}},
{"par",{0x2225}},
{"para",{0xb6}},
{"part",{0x2202}},
{"pbreve",{0x70,0x306}},
{"pbring",{0x70,0x32f}},
{"pcaron",{0x70,0x30c}},
{"pcirc",{0x70,0x302}},
{"pcy",{0x43f}},
{"pdot",{0x70,0x307}},
{"percnt",{0x25}},
{"period",{0x2e}},
{"permil",{0x2030}},
{"perp",{0x22a5}},
{"pgr",{0x3c0}},
{"pgrave",{0x70,0x300}},
{"phgr",{0x3c6}},
{"phi",{0x3c6}},
{"phis",{0x3c6}},
{"phiv",{0x3d5}},
{"phmmat",{0x2133}},
{"phone",{0x260e}},
{"pi",{0x3c0}},
{"piv",{0x3d6}},
{"planck",{0x210f}},
{"plus",{0x2b}},
{"plusb",{0x229e}},
{"plusdo",{0x2214}},
{"plusmn",{0xb1}},
{"pmacr",{0x70,0x304}},
{"pound",{0xa3}},
{"pr",{0x227a}},
{"pre",{0x227c}},
{"prime",{0x2032}},
{"prnsim",{0x22e8}},
{"prod",{0x220f}},
{"prop",{0x221d}},
{"prsim",{0x227e}},
{"psgr",{0x3c8}},
{"psi",{0x3c8}},
{"ptilde",{0x70,0x303}},
{"puml",{0x70,0x308}},
{"puncsp",{0x2008}},
{"qacute",{0x71,0x301}},
{"qbreve",{0x71,0x306}},
{"qbring",{0x71,0x32f}},
{"qcaron",{0x71,0x30c}},
{"qcirc",{0x71,0x302}},
{"qdot",{0x71,0x307}},
{"qgrave",{0x71,0x300}},
{"qmacr",{0x71,0x304}},
{"qtilde",{0x71,0x303}},
{"quest",{0x3f}},
{"quml",{0x71,0x308}},
{"quot",{0x22}},
{"rAarr",{0x21db}},
{"rArr",{0x21d2}},
{"racute",{0x155}},
{"racute",{0x72,0x301}},
{"radic",{0x221a}},
{"rang",{0x232a}},
{"raquo",{0xbb}},
{"rarr",{0x2192}},
{"rarr2",{0x21c9}},
{"rarrhk",{0x21aa}},
{"rarrlp",{0x21ac}},
{"rarrtl",{0x21a3}},
{"rarrw",{0x219d}},
{"rbreve",{0x72,0x306}},
{"rbring",{0x72,0x32f}},
{"rcaron",{0x159}},
{"rcaron",{0x72,0x30c}},
{"rcedil",{0x157}},
{"rceil",{0x2309}},
{"rcirc",{0x72,0x302}},
{"rcub",{0x7d}},
{"rcy",{0x440}},
{"rdot",{0x72,0x307}},
{"rdquo",{0x201d}},
{"rdquor",{0x201c}},
{"real",{0x211c}},
{"rect",{0x25ad}},
{"reg",{0xae}},
{"rfloor",{0x230b}},
{"rgr",{0x3c1}},
{"rgrave",{0x72,0x300}},
{"rhard",{0x21c1}},
{"rharu",{0x21c0}},
{"rho",{0x3c1}},
{"rhov",{0x3f1}},
{"ring",{0x2da}},
{"rlarr2",{0x21c4}},
{"rlhar2",{0x21cc}},
{"rlm",{0x200f}},
{"rmacr",{0x72,0x304}},
{"rpar",{0x29}},
{"rsaquo",{0x203a}},
{"rsh",{0x21b1}},
{"rsqb",{0x5d}},
{"rsquo",{0x2019}},
{"rsquor",{0x2018}},
{"rthree",{0x22cc}},
{"rtilde",{0x72,0x303}},
{"rtimes",{0x22ca}},
{"rtri",{0x25b9}},
{"rtrie",{0x22b5}},
{"rtrif",{0x25b8}},
{"ruml",{0x72,0x308}},
{"rx",{0x211e}},
{"sacute",{0x15b}},
{"sacute",{0x73,0x301}},
{"samalg",{0x2210}},
{"sbquo",{0x201a}},
{"sbreve",{0x73,0x306}},
{"sbring",{0x73,0x32f}},
{"sbsol",{0x5c}},
{"sc",{0x227b}},
{"scaron",{0x161}},
{"scaron",{0x73,0x30c}},
{"sccue",{0x227d}},
{"sce",{0x227d}},
{"scedil",{0x15f}},
{"schwa",{0x259}},
{"schwaacute",{0x259,0x301}},
{"schwadgrave",{0x259,0x30f}},
{"schwagrave",{0x259,0x300}},
{"schwamacr",{0x259,0x304}},
{"scirc",{0x15d}},
{"scirc",{0x73,0x302}},
{"scnsim",{0x22e9}},
{"scsim",{0x227f}},
{"scy",{0x441}},
{"sdot",{0x22c5}},
{"sdot",{0x73,0x307}},
{"sdotb",{0x22a1}},
{"sect",{0xa7}},
{"semi",{0x3b}},
{"setmn",{0x2216}},
{"sext",{0x2736}},
{"sfgr",{0x3c2}},
{"sfrown",{0x2322}},
{"sgr",{0x3c3}},
{"sgrave",{0x73,0x300}},
{"sharp",{0x266f}},
{"shchcy",{0x449}},
{"shcy",{0x448}},
{"shy",{0xad}},
{"sigma",{0x3c3}},
{"sigmaf",{0x3c2}},
{"sigmav",{0x3c2}},
{"sim",{0x223c}},
{"sime",{0x2243}},
{"smacr",{0x73,0x304}},
{"smile",{0x2323}},
{"softcy",{0x44c}},
{"sol",{0x2f}},
{"spades",{0x2660}},
{"spar",{0x2225}},
{"sqcap",{0x2293}},
{"sqcup",{0x2294}},
{"sqsub",{0x228f}},
{"sqsube",{0x2291}},
{"sqsup",{0x2290}},
{"sqsupe",{0x2292}},
{"squ",{0x25a1}},
{"square",{0x25a1}},
{"squarf",{0x25a0}},
{"squf",{0x25aa}},
{"ssetmn",{0x2216}},
{"ssmile",{0x2323}},
{"sstarf",{0x22c6}},
{"star",{0x2606}},
{"starf",{0x2605}},
{"stilde",{0x73,0x303}},
{"sub",{0x2282}},
{"subE",{0x2286}},
{"sube",{0x2286}},
{"subnE",{0x228a}},
{"subne",{0x228a}},
{"sum",{0x2211}},
{"suml",{0x73,0x308}},
{"sung",{0x266a}},
{"sup",{0x2283}},
{"sup1",{0xb9}},
{"sup2",{0xb2}},
{"sup3",{0xb3}},
{"supE",{0x2287}},
{"supe",{0x2287}},
{"supnE",{0x228b}},
{"supne",{0x228b}},
{"szlig",{0xdf}},
{"tacute",{0x74,0x301}},
{"target",{0x2316}},
{"tau",{0x3c4}},
{"tbreve",{0x74,0x306}},
{"tbring",{0x74,0x32f}},
{"tcaron",{0x165}},
{"tcaron",{0x74,0x30c}},
{"tcedil",{0x163}},
{"tcirc",{0x74,0x302}},
{"tcy",{0x442}},
{"tdot",{0x20db}},
{"tdot",{0x74,0x307}},
{"telrec",{0x2315}},
{"tgr",{0x3c4}},
{"tgrave",{0x74,0x300}},
{"there4",{0x2234}},
{"theta",{0x3b8}},
{"thetas",{0x3b8}},
{"thetasym",{0x3d1}},
{"thetav",{0x3d1}},
{"thgr",{0x3b8}},
{"thinsp",{0x2009}},
{"thkap",{0x2248}},
{"thksim",{0x223c}},
{"thorn",{0xfe}},
{"tilde",{0x2dc}},
{"times",{0xd7}},
{"timesb",{0x22a0}},
{"tmacr",{0x74,0x304}},
{"top",{0x22a4}},
{"tprime",{0x2034}},
{"trade",{0x2122}},
{"trie",{0x225c}},
{"tscy",{0x446}},
{"tshcy",{0x45b}},
{"tstrok",{0x167}},
{"ttilde",{0x74,0x303}},
{"tuml",{0x74,0x308}},
{"twixt",{0x226c}},
{"uArr",{0x21d1}},
{"uacgr",{0x3cd}},
{"uacute",{0xfa}},
{"uacute",{0x75,0x301}},
{"uarr",{0x2191}},
{"uarr2",{0x21c8}},
{"ubrcy",{0x45e}},
{"ubreve",{0x16d}},
{"ubreve",{0x75,0x306}},
{"ubring",{0x75,0x32f}},
{"ucaron",{0x75,0x30c}},
{"ucirc",{0xfb}},
{"ucirc",{0x75,0x302}},
{"ucy",{0x443}},
{"udblac",{0x171}},
{"udiagr",{0x3b0}},
{"udigr",{0x3cb}},
{"udot",{0x75,0x307}},
{"ugr",{0x3c5}},
{"ugrave",{0xf9}},
{"ugrave",{0x75,0x300}},
{"uharl",{0x21bf}},
{"uharr",{0x21be}},
{"uhblk",{0x2580}},
{"ulcorn",{0x231c}},
{"ulcrop",{0x230f}},
{"umacr",{0x16b}},
{"umacr",{0x75,0x304}},
{"uml",{0xa8}},
{"uogon",{0x173}},
{"uplus",{0x228e}},
{"upsi",{0x3c5}},
{"upsih",{0x3d2}},
{"upsilon",{0x3c5}},
{"urcorn",{0x231d}},
{"urcrop",{0x230e}},
{"uring",{0x16f}},
{"utilde",{0x169}},
{"utilde",{0x75,0x303}},
{"utri",{0x25b5}},
{"utrif",{0x25b4}},
{"uuml",{0xfc}},
{"uuml",{0x75,0x308}},
{"vArr",{0x21d5}},
{"vDash",{0x22a8}},
{"vacute",{0x76,0x301}},
{"varr",{0x2195}},
{"vbreve",{0x76,0x306}},
{"vbring",{0x76,0x32f}},
{"vcaron",{0x76,0x30c}},
{"vcirc",{0x76,0x302}},
{"vcy",{0x432}},
{"vdash",{0x22a2}},
{"vdot",{0x76,0x307}},
{"veebar",{0x22bb}},
{"vellip",{0x22ee}},
{"verbar",{0x7c}},
{"vgrave",{0x76,0x300}},
{"vltri",{0x22b2}},
{"vmacr",{0x76,0x304}},
{"vprime",{0x2032}},
{"vprop",{0x221d}},
{"vrtri",{0x22b3}},
{"vsubnE",{0x228a}},
{"vsubne",{0x228a}},
{"vsupnE",{0x228b}},
{"vsupne",{0x228b}},
{"vtab",{0xb}},
{"vtilde",{0x76,0x303}},
{"vuml",{0x76,0x308}},
{"wacute",{0x77,0x301}},
{"wbreve",{0x77,0x306}},
{"wbring",{0x77,0x32f}},
{"wcaron",{0x77,0x30c}},
{"wcirc",{0x175}},
{"wcirc",{0x77,0x302}},
{"wdot",{0x77,0x307}},
{"wedgeq",{0x2259}},
{"weierp",{0x2118}},
{"wgrave",{0x77,0x300}},
{"wmacr",{0x77,0x304}},
{"wreath",{0x2240}},
{"wtilde",{0x77,0x303}},
{"wuml",{0x77,0x308}},
{"xacute",{0x78,0x301}},
{"xbreve",{0x78,0x306}},
{"xbring",{0x78,0x32f}},
{"xcaron",{0x78,0x30c}},
{"xcirc",{0x25cb}},
{"xcirc",{0x78,0x302}},
{"xdot",{0x78,0x307}},
{"xdtri",{0x25bd}},
{"xgr",{0x3be}},
{"xgrave",{0x78,0x300}},
{"xhArr",{0x2194}},
{"xharr",{0x2194}},
{"xi",{0x3be}},
{"xlArr",{0x21d0}},
{"xmacr",{0x78,0x304}},
{"xrArr",{0x21d2}},
{"xtilde",{0x78,0x303}},
{"xuml",{0x78,0x308}},
{"xutri",{0x25b3}},
{"yacute",{0xfd}},
{"yacute",{0x79,0x301}},
{"yacy",{0x44f}},
{"ybreve",{0x79,0x306}},
{"ybring",{0x79,0x32f}},
{"ycaron",{0x79,0x30c}},
{"ycirc",{0x177}},
{"ycirc",{0x79,0x302}},
{"ycy",{0x44b}},
{"ydot",{0x79,0x307}},
{"yen",{0xa5}},
{"ygrave",{0x79,0x300}},
{"yicy",{0x457}},
{"ymacr",{0x79,0x304}},
{"ytilde",{0x79,0x303}},
{"yucy",{0x44e}},
{"yuml",{0xff}},
{"yuml",{0x79,0x308}},
{"zacute",{0x17a}},
{"zacute",{0x7a,0x301}},
{"zbreve",{0x7a,0x306}},
{"zbring",{0x7a,0x32f}},
{"zcaron",{0x17e}},
{"zcaron",{0x7a,0x30c}},
{"zcirc",{0x7a,0x302}},
{"zcy",{0x437}},
{"zdot",{0x17c}},
{"zdot",{0x7a,0x307}},
{"zeta",{0x3b6}},
{"zgr",{0x3b6}},
{"zgrave",{0x7a,0x300}},
{"zhcy",{0x436}},
{"zmacr",{0x7a,0x304}},
{"ztilde",{0x7a,0x303}},
{"zuml",{0x7a,0x308}},
{"zwj",{0x200d}},
{"zwnj",{0x200c}},
