package main

// Generated from the Unicode character database (Python unicodedata 15.0.0).

// nfkdStable: assigned non-ASCII code points of combining class 0 that NFKD
// leaves alone, in any sequence.
var nfkdStable = [][2]rune{
	{0x80, 0x9f}, {0xa1, 0xa7}, {0xa9, 0xa9}, {0xab, 0xae}, {0xb0, 0xb1}, {0xb6, 0xb7},
	{0xbb, 0xbb}, {0xbf, 0xbf}, {0xc6, 0xc6}, {0xd0, 0xd0}, {0xd7, 0xd8}, {0xde, 0xdf},
	{0xe6, 0xe6}, {0xf0, 0xf0}, {0xf7, 0xf8}, {0xfe, 0xfe}, {0x110, 0x111}, {0x126, 0x127},
	{0x131, 0x131}, {0x138, 0x138}, {0x141, 0x142}, {0x14a, 0x14b}, {0x152, 0x153}, {0x166, 0x167},
	{0x180, 0x19f}, {0x1a2, 0x1ae}, {0x1b1, 0x1c3}, {0x1dd, 0x1dd}, {0x1e4, 0x1e5}, {0x1f6, 0x1f7},
	{0x21c, 0x21d}, {0x220, 0x225}, {0x234, 0x2af}, {0x2b9, 0x2d7}, {0x2de, 0x2df}, {0x2e5, 0x2ff},
	{0x34f, 0x34f}, {0x370, 0x373}, {0x375, 0x377}, {0x37b, 0x37d}, {0x37f, 0x37f}, {0x391, 0x3a1},
	{0x3a3, 0x3a9}, {0x3b1, 0x3c9}, {0x3cf, 0x3cf}, {0x3d7, 0x3ef}, {0x3f3, 0x3f3}, {0x3f6, 0x3f8},
	{0x3fa, 0x3ff}, {0x402, 0x402}, {0x404, 0x406}, {0x408, 0x40b}, {0x40f, 0x418}, {0x41a, 0x438},
	{0x43a, 0x44f}, {0x452, 0x452}, {0x454, 0x456}, {0x458, 0x45b}, {0x45f, 0x475}, {0x478, 0x482},
	{0x488, 0x4c0}, {0x4c3, 0x4cf}, {0x4d4, 0x4d5}, {0x4d8, 0x4d9}, {0x4e0, 0x4e1}, {0x4e8, 0x4e9},
	{0x4f6, 0x4f7}, {0x4fa, 0x52f}, {0x531, 0x556}, {0x559, 0x586}, {0x588, 0x58a}, {0x58d, 0x58f},
	{0x5be, 0x5be}, {0x5c0, 0x5c0}, {0x5c3, 0x5c3}, {0x5c6, 0x5c6}, {0x5d0, 0x5ea}, {0x5ef, 0x5f4},
	{0x600, 0x60f}, {0x61b, 0x621}, {0x627, 0x64a}, {0x660, 0x66f}, {0x671, 0x674}, {0x679, 0x6bf},
	{0x6c1, 0x6c1}, {0x6c3, 0x6d2}, {0x6d4, 0x6d5}, {0x6dd, 0x6de}, {0x6e5, 0x6e6}, {0x6e9, 0x6e9},
	{0x6ee, 0x70d}, {0x70f, 0x710}, {0x712, 0x72f}, {0x74d, 0x7b1}, {0x7c0, 0x7ea}, {0x7f4, 0x7fa},
	{0x7fe, 0x815}, {0x81a, 0x81a}, {0x824, 0x824}, {0x828, 0x828}, {0x830, 0x83e}, {0x840, 0x858},
	{0x85e, 0x85e}, {0x860, 0x86a}, {0x870, 0x88e}, {0x890, 0x891}, {0x8a0, 0x8c9}, {0x8e2, 0x8e2},
	{0x900, 0x928}, {0x92a, 0x930}, {0x932, 0x933}, {0x935, 0x93b}, {0x93d, 0x94c}, {0x94e, 0x950},
	{0x955, 0x957}, {0x960, 0x983}, {0x985, 0x98c}, {0x98f, 0x990}, {0x993, 0x9a8}, {0x9aa, 0x9b0},
	{0x9b2, 0x9b2}, {0x9b6, 0x9b9}, {0x9bd, 0x9c4}, {0x9c7, 0x9c8}, {0x9ce, 0x9ce}, {0x9d7, 0x9d7},
	{0x9e0, 0x9e3}, {0x9e6, 0x9fd}, {0xa01, 0xa03}, {0xa05, 0xa0a}, {0xa0f, 0xa10}, {0xa13, 0xa28},
	{0xa2a, 0xa30}, {0xa32, 0xa32}, {0xa35, 0xa35}, {0xa38, 0xa39}, {0xa3e, 0xa42}, {0xa47, 0xa48},
	{0xa4b, 0xa4c}, {0xa51, 0xa51}, {0xa5c, 0xa5c}, {0xa66, 0xa76}, {0xa81, 0xa83}, {0xa85, 0xa8d},
	{0xa8f, 0xa91}, {0xa93, 0xaa8}, {0xaaa, 0xab0}, {0xab2, 0xab3}, {0xab5, 0xab9}, {0xabd, 0xac5},
	{0xac7, 0xac9}, {0xacb, 0xacc}, {0xad0, 0xad0}, {0xae0, 0xae3}, {0xae6, 0xaf1}, {0xaf9, 0xaff},
	{0xb01, 0xb03}, {0xb05, 0xb0c}, {0xb0f, 0xb10}, {0xb13, 0xb28}, {0xb2a, 0xb30}, {0xb32, 0xb33},
	{0xb35, 0xb39}, {0xb3d, 0xb44}, {0xb47, 0xb47}, {0xb55, 0xb57}, {0xb5f, 0xb63}, {0xb66, 0xb77},
	{0xb82, 0xb83}, {0xb85, 0xb8a}, {0xb8e, 0xb90}, {0xb92, 0xb93}, {0xb95, 0xb95}, {0xb99, 0xb9a},
	{0xb9c, 0xb9c}, {0xb9e, 0xb9f}, {0xba3, 0xba4}, {0xba8, 0xbaa}, {0xbae, 0xbb9}, {0xbbe, 0xbc2},
	{0xbc6, 0xbc8}, {0xbd0, 0xbd0}, {0xbd7, 0xbd7}, {0xbe6, 0xbfa}, {0xc00, 0xc0c}, {0xc0e, 0xc10},
	{0xc12, 0xc28}, {0xc2a, 0xc39}, {0xc3d, 0xc44}, {0xc46, 0xc47}, {0xc4a, 0xc4c}, {0xc58, 0xc5a},
	{0xc5d, 0xc5d}, {0xc60, 0xc63}, {0xc66, 0xc6f}, {0xc77, 0xc8c}, {0xc8e, 0xc90}, {0xc92, 0xca8},
	{0xcaa, 0xcb3}, {0xcb5, 0xcb9}, {0xcbd, 0xcbf}, {0xcc1, 0xcc4}, {0xcc6, 0xcc6}, {0xccc, 0xccc},
	{0xcd5, 0xcd6}, {0xcdd, 0xcde}, {0xce0, 0xce3}, {0xce6, 0xcef}, {0xcf1, 0xcf3}, {0xd00, 0xd0c},
	{0xd0e, 0xd10}, {0xd12, 0xd3a}, {0xd3d, 0xd44}, {0xd46, 0xd48}, {0xd4e, 0xd4f}, {0xd54, 0xd63},
	{0xd66, 0xd7f}, {0xd81, 0xd83}, {0xd85, 0xd96}, {0xd9a, 0xdb1}, {0xdb3, 0xdbb}, {0xdbd, 0xdbd},
	{0xdc0, 0xdc6}, {0xdcf, 0xdd4}, {0xdd6, 0xdd6}, {0xdd8, 0xdd9}, {0xddb, 0xddb}, {0xddf, 0xddf},
	{0xde6, 0xdef}, {0xdf2, 0xdf4}, {0xe01, 0xe32}, {0xe34, 0xe37}, {0xe3f, 0xe47}, {0xe4c, 0xe5b},
	{0xe81, 0xe82}, {0xe84, 0xe84}, {0xe86, 0xe8a}, {0xe8c, 0xea3}, {0xea5, 0xea5}, {0xea7, 0xeb2},
	{0xeb4, 0xeb7}, {0xebb, 0xebd}, {0xec0, 0xec4}, {0xec6, 0xec6}, {0xecc, 0xece}, {0xed0, 0xed9},
	{0xede, 0xedf}, {0xf00, 0xf0b}, {0xf0d, 0xf17}, {0xf1a, 0xf34}, {0xf36, 0xf36}, {0xf38, 0xf38},
	{0xf3a, 0xf42}, {0xf44, 0xf47}, {0xf49, 0xf4c}, {0xf4e, 0xf51}, {0xf53, 0xf56}, {0xf58, 0xf5b},
	{0xf5d, 0xf68}, {0xf6a, 0xf6c}, {0xf7e, 0xf7f}, {0xf85, 0xf85}, {0xf88, 0xf92}, {0xf94, 0xf97},
	{0xf99, 0xf9c}, {0xf9e, 0xfa1}, {0xfa3, 0xfa6}, {0xfa8, 0xfab}, {0xfad, 0xfb8}, {0xfba, 0xfbc},
	{0xfbe, 0xfc5}, {0xfc7, 0xfcc}, {0xfce, 0xfda}, {0x1000, 0x1025}, {0x1027, 0x1036}, {0x1038, 0x1038},
	{0x103b, 0x108c}, {0x108e, 0x10c5}, {0x10c7, 0x10c7}, {0x10cd, 0x10cd}, {0x10d0, 0x10fb}, {0x10fd, 0x1248},
	{0x124a, 0x124d}, {0x1250, 0x1256}, {0x1258, 0x1258}, {0x125a, 0x125d}, {0x1260, 0x1288}, {0x128a, 0x128d},
	{0x1290, 0x12b0}, {0x12b2, 0x12b5}, {0x12b8, 0x12be}, {0x12c0, 0x12c0}, {0x12c2, 0x12c5}, {0x12c8, 0x12d6},
	{0x12d8, 0x1310}, {0x1312, 0x1315}, {0x1318, 0x135a}, {0x1360, 0x137c}, {0x1380, 0x1399}, {0x13a0, 0x13f5},
	{0x13f8, 0x13fd}, {0x1400, 0x169c}, {0x16a0, 0x16f8}, {0x1700, 0x1713}, {0x171f, 0x1733}, {0x1735, 0x1736},
	{0x1740, 0x1753}, {0x1760, 0x176c}, {0x176e, 0x1770}, {0x1772, 0x1773}, {0x1780, 0x17d1}, {0x17d3, 0x17dc},
	{0x17e0, 0x17e9}, {0x17f0, 0x17f9}, {0x1800, 0x1819}, {0x1820, 0x1878}, {0x1880, 0x18a8}, {0x18aa, 0x18aa},
	{0x18b0, 0x18f5}, {0x1900, 0x191e}, {0x1920, 0x192b}, {0x1930, 0x1938}, {0x1940, 0x1940}, {0x1944, 0x196d},
	{0x1970, 0x1974}, {0x1980, 0x19ab}, {0x19b0, 0x19c9}, {0x19d0, 0x19da}, {0x19de, 0x1a16}, {0x1a19, 0x1a1b},
	{0x1a1e, 0x1a5e}, {0x1a61, 0x1a74}, {0x1a80, 0x1a89}, {0x1a90, 0x1a99}, {0x1aa0, 0x1aad}, {0x1abe, 0x1abe},
	{0x1b00, 0x1b05}, {0x1b07, 0x1b07}, {0x1b09, 0x1b09}, {0x1b0b, 0x1b0b}, {0x1b0d, 0x1b0d}, {0x1b0f, 0x1b11},
	{0x1b13, 0x1b33}, {0x1b35, 0x1b3a}, {0x1b3c, 0x1b3c}, {0x1b3e, 0x1b3f}, {0x1b42, 0x1b42}, {0x1b45, 0x1b4c},
	{0x1b50, 0x1b6a}, {0x1b74, 0x1b7e}, {0x1b80, 0x1ba9}, {0x1bac, 0x1be5}, {0x1be7, 0x1bf1}, {0x1bfc, 0x1c36},
	{0x1c3b, 0x1c49}, {0x1c4d, 0x1c88}, {0x1c90, 0x1cba}, {0x1cbd, 0x1cc7}, {0x1cd3, 0x1cd3}, {0x1ce1, 0x1ce1},
	{0x1ce9, 0x1cec}, {0x1cee, 0x1cf3}, {0x1cf5, 0x1cf7}, {0x1cfa, 0x1cfa}, {0x1d00, 0x1d2b}, {0x1d2f, 0x1d2f},
	{0x1d3b, 0x1d3b}, {0x1d4e, 0x1d4e}, {0x1d6b, 0x1d77}, {0x1d79, 0x1d9a}, {0x1e9c, 0x1e9f}, {0x1efa, 0x1eff},
	{0x200b, 0x2010}, {0x2012, 0x2016}, {0x2018, 0x2023}, {0x2027, 0x202e}, {0x2030, 0x2032}, {0x2035, 0x2035},
	{0x2038, 0x203b}, {0x203d, 0x203d}, {0x203f, 0x2046}, {0x204a, 0x2056}, {0x2058, 0x205e}, {0x2060, 0x2064},
	{0x2066, 0x206f}, {0x20a0, 0x20a7}, {0x20a9, 0x20c0}, {0x20dd, 0x20e0}, {0x20e2, 0x20e4}, {0x2104, 0x2104},
	{0x2108, 0x2108}, {0x2114, 0x2114}, {0x2117, 0x2118}, {0x211e, 0x211f}, {0x2123, 0x2123}, {0x2125, 0x2125},
	{0x2127, 0x2127}, {0x2129, 0x2129}, {0x212e, 0x212e}, {0x2132, 0x2132}, {0x213a, 0x213a}, {0x2141, 0x2144},
	{0x214a, 0x214f}, {0x2180, 0x2188}, {0x218a, 0x218b}, {0x2190, 0x2199}, {0x219c, 0x21ad}, {0x21af, 0x21cc},
	{0x21d0, 0x2203}, {0x2205, 0x2208}, {0x220a, 0x220b}, {0x220d, 0x2223}, {0x2225, 0x2225}, {0x2227, 0x222b},
	{0x222e, 0x222e}, {0x2231, 0x2240}, {0x2242, 0x2243}, {0x2245, 0x2246}, {0x2248, 0x2248}, {0x224a, 0x225f},
	{0x2261, 0x2261}, {0x2263, 0x226c}, {0x2272, 0x2273}, {0x2276, 0x2277}, {0x227a, 0x227f}, {0x2282, 0x2283},
	{0x2286, 0x2287}, {0x228a, 0x22ab}, {0x22b0, 0x22df}, {0x22e4, 0x22e9}, {0x22ee, 0x2328}, {0x232b, 0x2426},
	{0x2440, 0x244a}, {0x24eb, 0x2a0b}, {0x2a0d, 0x2a73}, {0x2a77, 0x2adb}, {0x2add, 0x2b73}, {0x2b76, 0x2b95},
	{0x2b97, 0x2c7b}, {0x2c7e, 0x2cee}, {0x2cf2, 0x2cf3}, {0x2cf9, 0x2d25}, {0x2d27, 0x2d27}, {0x2d2d, 0x2d2d},
	{0x2d30, 0x2d67}, {0x2d70, 0x2d70}, {0x2d80, 0x2d96}, {0x2da0, 0x2da6}, {0x2da8, 0x2dae}, {0x2db0, 0x2db6},
	{0x2db8, 0x2dbe}, {0x2dc0, 0x2dc6}, {0x2dc8, 0x2dce}, {0x2dd0, 0x2dd6}, {0x2dd8, 0x2dde}, {0x2e00, 0x2e5d},
	{0x2e80, 0x2e99}, {0x2e9b, 0x2e9e}, {0x2ea0, 0x2ef2}, {0x2ff0, 0x2ffb}, {0x3001, 0x3029}, {0x3030, 0x3035},
	{0x3037, 0x3037}, {0x303b, 0x303f}, {0x3041, 0x304b}, {0x304d, 0x304d}, {0x304f, 0x304f}, {0x3051, 0x3051},
	{0x3053, 0x3053}, {0x3055, 0x3055}, {0x3057, 0x3057}, {0x3059, 0x3059}, {0x305b, 0x305b}, {0x305d, 0x305d},
	{0x305f, 0x305f}, {0x3061, 0x3061}, {0x3063, 0x3064}, {0x3066, 0x3066}, {0x3068, 0x3068}, {0x306a, 0x306f},
	{0x3072, 0x3072}, {0x3075, 0x3075}, {0x3078, 0x3078}, {0x307b, 0x307b}, {0x307e, 0x3093}, {0x3095, 0x3096},
	{0x309d, 0x309d}, {0x30a0, 0x30ab}, {0x30ad, 0x30ad}, {0x30af, 0x30af}, {0x30b1, 0x30b1}, {0x30b3, 0x30b3},
	{0x30b5, 0x30b5}, {0x30b7, 0x30b7}, {0x30b9, 0x30b9}, {0x30bb, 0x30bb}, {0x30bd, 0x30bd}, {0x30bf, 0x30bf},
	{0x30c1, 0x30c1}, {0x30c3, 0x30c4}, {0x30c6, 0x30c6}, {0x30c8, 0x30c8}, {0x30ca, 0x30cf}, {0x30d2, 0x30d2},
	{0x30d5, 0x30d5}, {0x30d8, 0x30d8}, {0x30db, 0x30db}, {0x30de, 0x30f3}, {0x30f5, 0x30f6}, {0x30fb, 0x30fd},
	{0x3105, 0x312f}, {0x3190, 0x3191}, {0x31a0, 0x31e3}, {0x31f0, 0x31ff}, {0x3248, 0x324f}, {0x327f, 0x327f},
	{0x3400, 0xa48c}, {0xa490, 0xa4c6}, {0xa4d0, 0xa62b}, {0xa640, 0xa66e}, {0xa670, 0xa673}, {0xa67e, 0xa69b},
	{0xa6a0, 0xa6ef}, {0xa6f2, 0xa6f7}, {0xa700, 0xa76f}, {0xa771, 0xa7ca}, {0xa7d0, 0xa7d1}, {0xa7d3, 0xa7d3},
	{0xa7d5, 0xa7d9}, {0xa7f5, 0xa7f7}, {0xa7fa, 0xa805}, {0xa807, 0xa82b}, {0xa830, 0xa839}, {0xa840, 0xa877},
	{0xa880, 0xa8c3}, {0xa8c5, 0xa8c5}, {0xa8ce, 0xa8d9}, {0xa8f2, 0xa92a}, {0xa92e, 0xa952}, {0xa95f, 0xa97c},
	{0xa980, 0xa9b2}, {0xa9b4, 0xa9bf}, {0xa9c1, 0xa9cd}, {0xa9cf, 0xa9d9}, {0xa9de, 0xa9fe}, {0xaa00, 0xaa36},
	{0xaa40, 0xaa4d}, {0xaa50, 0xaa59}, {0xaa5c, 0xaaaf}, {0xaab1, 0xaab1}, {0xaab5, 0xaab6}, {0xaab9, 0xaabd},
	{0xaac0, 0xaac0}, {0xaac2, 0xaac2}, {0xaadb, 0xaaf5}, {0xab01, 0xab06}, {0xab09, 0xab0e}, {0xab11, 0xab16},
	{0xab20, 0xab26}, {0xab28, 0xab2e}, {0xab30, 0xab5b}, {0xab60, 0xab68}, {0xab6a, 0xab6b}, {0xab70, 0xabec},
	{0xabf0, 0xabf9}, {0xd7b0, 0xd7c6}, {0xd7cb, 0xd7fb}, {0xfa0e, 0xfa0f}, {0xfa11, 0xfa11}, {0xfa13, 0xfa14},
	{0xfa1f, 0xfa1f}, {0xfa21, 0xfa21}, {0xfa23, 0xfa24}, {0xfa27, 0xfa29}, {0xfbb2, 0xfbc2}, {0xfd3e, 0xfd4f},
	{0xfdcf, 0xfdcf}, {0xfdfd, 0xfe0f}, {0xfe45, 0xfe46}, {0xfe73, 0xfe73}, {0xfeff, 0xfeff}, {0xfff9, 0xfffd},
	{0x10000, 0x1000b}, {0x1000d, 0x10026}, {0x10028, 0x1003a}, {0x1003c, 0x1003d}, {0x1003f, 0x1004d}, {0x10050, 0x1005d},
	{0x10080, 0x100fa}, {0x10100, 0x10102}, {0x10107, 0x10133}, {0x10137, 0x1018e}, {0x10190, 0x1019c}, {0x101a0, 0x101a0},
	{0x101d0, 0x101fc}, {0x10280, 0x1029c}, {0x102a0, 0x102d0}, {0x102e1, 0x102fb}, {0x10300, 0x10323}, {0x1032d, 0x1034a},
	{0x10350, 0x10375}, {0x10380, 0x1039d}, {0x1039f, 0x103c3}, {0x103c8, 0x103d5}, {0x10400, 0x1049d}, {0x104a0, 0x104a9},
	{0x104b0, 0x104d3}, {0x104d8, 0x104fb}, {0x10500, 0x10527}, {0x10530, 0x10563}, {0x1056f, 0x1057a}, {0x1057c, 0x1058a},
	{0x1058c, 0x10592}, {0x10594, 0x10595}, {0x10597, 0x105a1}, {0x105a3, 0x105b1}, {0x105b3, 0x105b9}, {0x105bb, 0x105bc},
	{0x10600, 0x10736}, {0x10740, 0x10755}, {0x10760, 0x10767}, {0x10780, 0x10780}, {0x10800, 0x10805}, {0x10808, 0x10808},
	{0x1080a, 0x10835}, {0x10837, 0x10838}, {0x1083c, 0x1083c}, {0x1083f, 0x10855}, {0x10857, 0x1089e}, {0x108a7, 0x108af},
	{0x108e0, 0x108f2}, {0x108f4, 0x108f5}, {0x108fb, 0x1091b}, {0x1091f, 0x10939}, {0x1093f, 0x1093f}, {0x10980, 0x109b7},
	{0x109bc, 0x109cf}, {0x109d2, 0x10a03}, {0x10a05, 0x10a06}, {0x10a0c, 0x10a0c}, {0x10a0e, 0x10a0e}, {0x10a10, 0x10a13},
	{0x10a15, 0x10a17}, {0x10a19, 0x10a35}, {0x10a40, 0x10a48}, {0x10a50, 0x10a58}, {0x10a60, 0x10a9f}, {0x10ac0, 0x10ae4},
	{0x10aeb, 0x10af6}, {0x10b00, 0x10b35}, {0x10b39, 0x10b55}, {0x10b58, 0x10b72}, {0x10b78, 0x10b91}, {0x10b99, 0x10b9c},
	{0x10ba9, 0x10baf}, {0x10c00, 0x10c48}, {0x10c80, 0x10cb2}, {0x10cc0, 0x10cf2}, {0x10cfa, 0x10d23}, {0x10d30, 0x10d39},
	{0x10e60, 0x10e7e}, {0x10e80, 0x10ea9}, {0x10ead, 0x10ead}, {0x10eb0, 0x10eb1}, {0x10f00, 0x10f27}, {0x10f30, 0x10f45},
	{0x10f51, 0x10f59}, {0x10f70, 0x10f81}, {0x10f86, 0x10f89}, {0x10fb0, 0x10fcb}, {0x10fe0, 0x10ff6}, {0x11000, 0x11045},
	{0x11047, 0x1104d}, {0x11052, 0x1106f}, {0x11071, 0x11075}, {0x11080, 0x11099}, {0x1109b, 0x1109b}, {0x1109d, 0x110aa},
	{0x110ac, 0x110b8}, {0x110bb, 0x110c2}, {0x110cd, 0x110cd}, {0x110d0, 0x110e8}, {0x110f0, 0x110f9}, {0x11103, 0x1112d},
	{0x11130, 0x11132}, {0x11136, 0x11147}, {0x11150, 0x11172}, {0x11174, 0x11176}, {0x11180, 0x111bf}, {0x111c1, 0x111c9},
	{0x111cb, 0x111df}, {0x111e1, 0x111f4}, {0x11200, 0x11211}, {0x11213, 0x11234}, {0x11237, 0x11241}, {0x11280, 0x11286},
	{0x11288, 0x11288}, {0x1128a, 0x1128d}, {0x1128f, 0x1129d}, {0x1129f, 0x112a9}, {0x112b0, 0x112e8}, {0x112f0, 0x112f9},
	{0x11300, 0x11303}, {0x11305, 0x1130c}, {0x1130f, 0x11310}, {0x11313, 0x11328}, {0x1132a, 0x11330}, {0x11332, 0x11333},
	{0x11335, 0x11339}, {0x1133d, 0x11344}, {0x11347, 0x11348}, {0x11350, 0x11350}, {0x11357, 0x11357}, {0x1135d, 0x11363},
	{0x11400, 0x11441}, {0x11443, 0x11445}, {0x11447, 0x1145b}, {0x1145d, 0x1145d}, {0x1145f, 0x11461}, {0x11480, 0x114ba},
	{0x114bd, 0x114bd}, {0x114bf, 0x114c1}, {0x114c4, 0x114c7}, {0x114d0, 0x114d9}, {0x11580, 0x115b5}, {0x115b8, 0x115b9},
	{0x115bc, 0x115be}, {0x115c1, 0x115dd}, {0x11600, 0x1163e}, {0x11640, 0x11644}, {0x11650, 0x11659}, {0x11660, 0x1166c},
	{0x11680, 0x116b5}, {0x116b8, 0x116b9}, {0x116c0, 0x116c9}, {0x11700, 0x1171a}, {0x1171d, 0x1172a}, {0x11730, 0x11746},
	{0x11800, 0x11838}, {0x1183b, 0x1183b}, {0x118a0, 0x118f2}, {0x118ff, 0x11906}, {0x11909, 0x11909}, {0x1190c, 0x11913},
	{0x11915, 0x11916}, {0x11918, 0x11935}, {0x11937, 0x11937}, {0x1193b, 0x1193c}, {0x1193f, 0x11942}, {0x11944, 0x11946},
	{0x11950, 0x11959}, {0x119a0, 0x119a7}, {0x119aa, 0x119d7}, {0x119da, 0x119df}, {0x119e1, 0x119e4}, {0x11a00, 0x11a33},
	{0x11a35, 0x11a46}, {0x11a50, 0x11a98}, {0x11a9a, 0x11aa2}, {0x11ab0, 0x11af8}, {0x11b00, 0x11b09}, {0x11c00, 0x11c08},
	{0x11c0a, 0x11c36}, {0x11c38, 0x11c3e}, {0x11c40, 0x11c45}, {0x11c50, 0x11c6c}, {0x11c70, 0x11c8f}, {0x11c92, 0x11ca7},
	{0x11ca9, 0x11cb6}, {0x11d00, 0x11d06}, {0x11d08, 0x11d09}, {0x11d0b, 0x11d36}, {0x11d3a, 0x11d3a}, {0x11d3c, 0x11d3d},
	{0x11d3f, 0x11d41}, {0x11d43, 0x11d43}, {0x11d46, 0x11d47}, {0x11d50, 0x11d59}, {0x11d60, 0x11d65}, {0x11d67, 0x11d68},
	{0x11d6a, 0x11d8e}, {0x11d90, 0x11d91}, {0x11d93, 0x11d96}, {0x11d98, 0x11d98}, {0x11da0, 0x11da9}, {0x11ee0, 0x11ef8},
	{0x11f00, 0x11f10}, {0x11f12, 0x11f3a}, {0x11f3e, 0x11f40}, {0x11f43, 0x11f59}, {0x11fb0, 0x11fb0}, {0x11fc0, 0x11ff1},
	{0x11fff, 0x12399}, {0x12400, 0x1246e}, {0x12470, 0x12474}, {0x12480, 0x12543}, {0x12f90, 0x12ff2}, {0x13000, 0x13455},
	{0x14400, 0x14646}, {0x16800, 0x16a38}, {0x16a40, 0x16a5e}, {0x16a60, 0x16a69}, {0x16a6e, 0x16abe}, {0x16ac0, 0x16ac9},
	{0x16ad0, 0x16aed}, {0x16af5, 0x16af5}, {0x16b00, 0x16b2f}, {0x16b37, 0x16b45}, {0x16b50, 0x16b59}, {0x16b5b, 0x16b61},
	{0x16b63, 0x16b77}, {0x16b7d, 0x16b8f}, {0x16e40, 0x16e9a}, {0x16f00, 0x16f4a}, {0x16f4f, 0x16f87}, {0x16f8f, 0x16f9f},
	{0x16fe0, 0x16fe4}, {0x17000, 0x187f7}, {0x18800, 0x18cd5}, {0x18d00, 0x18d08}, {0x1aff0, 0x1aff3}, {0x1aff5, 0x1affb},
	{0x1affd, 0x1affe}, {0x1b000, 0x1b122}, {0x1b132, 0x1b132}, {0x1b150, 0x1b152}, {0x1b155, 0x1b155}, {0x1b164, 0x1b167},
	{0x1b170, 0x1b2fb}, {0x1bc00, 0x1bc6a}, {0x1bc70, 0x1bc7c}, {0x1bc80, 0x1bc88}, {0x1bc90, 0x1bc99}, {0x1bc9c, 0x1bc9d},
	{0x1bc9f, 0x1bca3}, {0x1cf00, 0x1cf2d}, {0x1cf30, 0x1cf46}, {0x1cf50, 0x1cfc3}, {0x1d000, 0x1d0f5}, {0x1d100, 0x1d126},
	{0x1d129, 0x1d15d}, {0x1d16a, 0x1d16c}, {0x1d173, 0x1d17a}, {0x1d183, 0x1d184}, {0x1d18c, 0x1d1a9}, {0x1d1ae, 0x1d1ba},
	{0x1d1c1, 0x1d1ea}, {0x1d200, 0x1d241}, {0x1d245, 0x1d245}, {0x1d2c0, 0x1d2d3}, {0x1d2e0, 0x1d2f3}, {0x1d300, 0x1d356},
	{0x1d360, 0x1d378}, {0x1d800, 0x1da8b}, {0x1da9b, 0x1da9f}, {0x1daa1, 0x1daaf}, {0x1df00, 0x1df1e}, {0x1df25, 0x1df2a},
	{0x1e100, 0x1e12c}, {0x1e137, 0x1e13d}, {0x1e140, 0x1e149}, {0x1e14e, 0x1e14f}, {0x1e290, 0x1e2ad}, {0x1e2c0, 0x1e2eb},
	{0x1e2f0, 0x1e2f9}, {0x1e2ff, 0x1e2ff}, {0x1e4d0, 0x1e4eb}, {0x1e4f0, 0x1e4f9}, {0x1e7e0, 0x1e7e6}, {0x1e7e8, 0x1e7eb},
	{0x1e7ed, 0x1e7ee}, {0x1e7f0, 0x1e7fe}, {0x1e800, 0x1e8c4}, {0x1e8c7, 0x1e8cf}, {0x1e900, 0x1e943}, {0x1e94b, 0x1e94b},
	{0x1e950, 0x1e959}, {0x1e95e, 0x1e95f}, {0x1ec71, 0x1ecb4}, {0x1ed01, 0x1ed3d}, {0x1eef0, 0x1eef1}, {0x1f000, 0x1f02b},
	{0x1f030, 0x1f093}, {0x1f0a0, 0x1f0ae}, {0x1f0b1, 0x1f0bf}, {0x1f0c1, 0x1f0cf}, {0x1f0d1, 0x1f0f5}, {0x1f10b, 0x1f10f},
	{0x1f12f, 0x1f12f}, {0x1f150, 0x1f169}, {0x1f16d, 0x1f18f}, {0x1f191, 0x1f1ad}, {0x1f1e6, 0x1f1ff}, {0x1f260, 0x1f265},
	{0x1f300, 0x1f6d7}, {0x1f6dc, 0x1f6ec}, {0x1f6f0, 0x1f6fc}, {0x1f700, 0x1f776}, {0x1f77b, 0x1f7d9}, {0x1f7e0, 0x1f7eb},
	{0x1f7f0, 0x1f7f0}, {0x1f800, 0x1f80b}, {0x1f810, 0x1f847}, {0x1f850, 0x1f859}, {0x1f860, 0x1f887}, {0x1f890, 0x1f8ad},
	{0x1f8b0, 0x1f8b1}, {0x1f900, 0x1fa53}, {0x1fa60, 0x1fa6d}, {0x1fa70, 0x1fa7c}, {0x1fa80, 0x1fa88}, {0x1fa90, 0x1fabd},
	{0x1fabf, 0x1fac5}, {0x1face, 0x1fadb}, {0x1fae0, 0x1fae8}, {0x1faf0, 0x1faf8}, {0x1fb00, 0x1fb92}, {0x1fb94, 0x1fbca},
	{0x20000, 0x2a6df}, {0x2a700, 0x2b739}, {0x2b740, 0x2b81d}, {0x2b820, 0x2cea1}, {0x2ceb0, 0x2ebe0}, {0x30000, 0x3134a},
	{0x31350, 0x323af}, {0xe0001, 0xe0001}, {0xe0020, 0xe007f}, {0xe0100, 0xe01ef},
}

// nfkdMarks: combining marks that NFKD leaves alone after a letter.
var nfkdMarks = [][2]rune{
	{0x300, 0x33f}, {0x342, 0x342}, {0x345, 0x34e}, {0x350, 0x36f}, {0x483, 0x487}, {0x591, 0x5bd},
	{0x5bf, 0x5bf}, {0x5c1, 0x5c2}, {0x5c4, 0x5c5}, {0x5c7, 0x5c7}, {0x610, 0x61a}, {0x64b, 0x65f},
	{0x670, 0x670}, {0x6d6, 0x6dc}, {0x6df, 0x6e4}, {0x6e7, 0x6e8}, {0x6ea, 0x6ed}, {0x711, 0x711},
	{0x730, 0x74a}, {0x7eb, 0x7f3}, {0x7fd, 0x7fd}, {0x816, 0x819}, {0x81b, 0x823}, {0x825, 0x827},
	{0x829, 0x82d}, {0x859, 0x85b}, {0x898, 0x89f}, {0x8ca, 0x8e1}, {0x8e3, 0x8ff}, {0x93c, 0x93c},
	{0x94d, 0x94d}, {0x951, 0x954}, {0x9bc, 0x9bc}, {0x9cd, 0x9cd}, {0x9fe, 0x9fe}, {0xa3c, 0xa3c},
	{0xa4d, 0xa4d}, {0xabc, 0xabc}, {0xacd, 0xacd}, {0xb3c, 0xb3c}, {0xb4d, 0xb4d}, {0xbcd, 0xbcd},
	{0xc3c, 0xc3c}, {0xc4d, 0xc4d}, {0xc55, 0xc56}, {0xcbc, 0xcbc}, {0xccd, 0xccd}, {0xd3b, 0xd3c},
	{0xd4d, 0xd4d}, {0xdca, 0xdca}, {0xe38, 0xe3a}, {0xe48, 0xe4b}, {0xeb8, 0xeba}, {0xec8, 0xecb},
	{0xf18, 0xf19}, {0xf35, 0xf35}, {0xf37, 0xf37}, {0xf39, 0xf39}, {0xf71, 0xf72}, {0xf74, 0xf74},
	{0xf7a, 0xf7d}, {0xf80, 0xf80}, {0xf82, 0xf84}, {0xf86, 0xf87}, {0xfc6, 0xfc6}, {0x1037, 0x1037},
	{0x1039, 0x103a}, {0x108d, 0x108d}, {0x135d, 0x135f}, {0x1714, 0x1715}, {0x1734, 0x1734}, {0x17d2, 0x17d2},
	{0x17dd, 0x17dd}, {0x18a9, 0x18a9}, {0x1939, 0x193b}, {0x1a17, 0x1a18}, {0x1a60, 0x1a60}, {0x1a75, 0x1a7c},
	{0x1a7f, 0x1a7f}, {0x1ab0, 0x1abd}, {0x1abf, 0x1ace}, {0x1b34, 0x1b34}, {0x1b44, 0x1b44}, {0x1b6b, 0x1b73},
	{0x1baa, 0x1bab}, {0x1be6, 0x1be6}, {0x1bf2, 0x1bf3}, {0x1c37, 0x1c37}, {0x1cd0, 0x1cd2}, {0x1cd4, 0x1ce0},
	{0x1ce2, 0x1ce8}, {0x1ced, 0x1ced}, {0x1cf4, 0x1cf4}, {0x1cf8, 0x1cf9}, {0x1dc0, 0x1dff}, {0x20d0, 0x20dc},
	{0x20e1, 0x20e1}, {0x20e5, 0x20f0}, {0x2cef, 0x2cf1}, {0x2d7f, 0x2d7f}, {0x2de0, 0x2dff}, {0x302a, 0x302f},
	{0x3099, 0x309a}, {0xa66f, 0xa66f}, {0xa674, 0xa67d}, {0xa69e, 0xa69f}, {0xa6f0, 0xa6f1}, {0xa806, 0xa806},
	{0xa82c, 0xa82c}, {0xa8c4, 0xa8c4}, {0xa8e0, 0xa8f1}, {0xa92b, 0xa92d}, {0xa953, 0xa953}, {0xa9b3, 0xa9b3},
	{0xa9c0, 0xa9c0}, {0xaab0, 0xaab0}, {0xaab2, 0xaab4}, {0xaab7, 0xaab8}, {0xaabe, 0xaabf}, {0xaac1, 0xaac1},
	{0xaaf6, 0xaaf6}, {0xabed, 0xabed}, {0xfb1e, 0xfb1e}, {0xfe20, 0xfe2f}, {0x101fd, 0x101fd}, {0x102e0, 0x102e0},
	{0x10376, 0x1037a}, {0x10a0d, 0x10a0d}, {0x10a0f, 0x10a0f}, {0x10a38, 0x10a3a}, {0x10a3f, 0x10a3f}, {0x10ae5, 0x10ae6},
	{0x10d24, 0x10d27}, {0x10eab, 0x10eac}, {0x10efd, 0x10eff}, {0x10f46, 0x10f50}, {0x10f82, 0x10f85}, {0x11046, 0x11046},
	{0x11070, 0x11070}, {0x1107f, 0x1107f}, {0x110b9, 0x110ba}, {0x11100, 0x11102}, {0x11133, 0x11134}, {0x11173, 0x11173},
	{0x111c0, 0x111c0}, {0x111ca, 0x111ca}, {0x11235, 0x11236}, {0x112e9, 0x112ea}, {0x1133b, 0x1133c}, {0x1134d, 0x1134d},
	{0x11366, 0x1136c}, {0x11370, 0x11374}, {0x11442, 0x11442}, {0x11446, 0x11446}, {0x1145e, 0x1145e}, {0x114c2, 0x114c3},
	{0x115bf, 0x115c0}, {0x1163f, 0x1163f}, {0x116b6, 0x116b7}, {0x1172b, 0x1172b}, {0x11839, 0x1183a}, {0x1193d, 0x1193e},
	{0x11943, 0x11943}, {0x119e0, 0x119e0}, {0x11a34, 0x11a34}, {0x11a47, 0x11a47}, {0x11a99, 0x11a99}, {0x11c3f, 0x11c3f},
	{0x11d42, 0x11d42}, {0x11d44, 0x11d45}, {0x11d97, 0x11d97}, {0x11f41, 0x11f42}, {0x16af0, 0x16af4}, {0x16b30, 0x16b36},
	{0x16ff0, 0x16ff1}, {0x1bc9e, 0x1bc9e}, {0x1d165, 0x1d169}, {0x1d16d, 0x1d172}, {0x1d17b, 0x1d182}, {0x1d185, 0x1d18b},
	{0x1d1aa, 0x1d1ad}, {0x1d242, 0x1d244}, {0x1e000, 0x1e006}, {0x1e008, 0x1e018}, {0x1e01b, 0x1e021}, {0x1e023, 0x1e024},
	{0x1e026, 0x1e02a}, {0x1e08f, 0x1e08f}, {0x1e130, 0x1e136}, {0x1e2ae, 0x1e2ae}, {0x1e2ec, 0x1e2ef}, {0x1e4ec, 0x1e4ef},
	{0x1e8d0, 0x1e8d6}, {0x1e944, 0x1e94a},
}

// nfkdEdges: controls, format characters, separators and quotes of the normal
// form, which careless trimming takes away.
var nfkdEdges = [][2]rune{
	{0x0, 0x20},
	{0x7f, 0x9f},
	{0xab, 0xab},
	{0xad, 0xad},
	{0xbb, 0xbb},
	{0x600, 0x605},
	{0x61c, 0x61c},
	{0x6dd, 0x6dd},
	{0x70f, 0x70f},
	{0x890, 0x891},
	{0x8e2, 0x8e2},
	{0x1680, 0x1680},
	{0x180e, 0x180e},
	{0x200b, 0x200f},
	{0x2018, 0x2019},
	{0x201b, 0x201d},
	{0x201f, 0x201f},
	{0x2028, 0x202e},
	{0x2039, 0x203a},
	{0x2060, 0x2064},
	{0x2066, 0x206f},
	{0x2e02, 0x2e05},
	{0x2e09, 0x2e0a},
	{0x2e0c, 0x2e0d},
	{0x2e1c, 0x2e1d},
	{0x2e20, 0x2e21},
	{0xfeff, 0xfeff},
	{0xfff9, 0xfffb},
	{0x110bd, 0x110bd},
	{0x110cd, 0x110cd},
	{0x13430, 0x1343f},
	{0x1bca0, 0x1bca3},
	{0x1d173, 0x1d17a},
	{0xe0001, 0xe0001},
	{0xe0020, 0xe007f},
}
