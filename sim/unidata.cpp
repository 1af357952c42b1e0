// Made by tools/unidata.py from UnicodeData16.0.0.txt.
#include "unidata.hpp"
namespace sim::uni
{
    const CaseRow CASE_ROWS[] = {
{0x41,0x41,0x61,0x41}, {0x42,0x42,0x62,0x42}, {0x43,0x43,0x63,0x43}, {0x44,0x44,0x64,0x44}, {0x45,0x45,0x65,0x45}, {0x46,0x46,0x66,0x46},
{0x47,0x47,0x67,0x47}, {0x48,0x48,0x68,0x48}, {0x49,0x49,0x69,0x49}, {0x4a,0x4a,0x6a,0x4a}, {0x4b,0x4b,0x6b,0x4b}, {0x4c,0x4c,0x6c,0x4c},
{0x4d,0x4d,0x6d,0x4d}, {0x4e,0x4e,0x6e,0x4e}, {0x4f,0x4f,0x6f,0x4f}, {0x50,0x50,0x70,0x50}, {0x51,0x51,0x71,0x51}, {0x52,0x52,0x72,0x52},
{0x53,0x53,0x73,0x53}, {0x54,0x54,0x74,0x54}, {0x55,0x55,0x75,0x55}, {0x56,0x56,0x76,0x56}, {0x57,0x57,0x77,0x57}, {0x58,0x58,0x78,0x58},
{0x59,0x59,0x79,0x59}, {0x5a,0x5a,0x7a,0x5a}, {0x61,0x41,0x61,0x41}, {0x62,0x42,0x62,0x42}, {0x63,0x43,0x63,0x43}, {0x64,0x44,0x64,0x44},
{0x65,0x45,0x65,0x45}, {0x66,0x46,0x66,0x46}, {0x67,0x47,0x67,0x47}, {0x68,0x48,0x68,0x48}, {0x69,0x49,0x69,0x49}, {0x6a,0x4a,0x6a,0x4a},
{0x6b,0x4b,0x6b,0x4b}, {0x6c,0x4c,0x6c,0x4c}, {0x6d,0x4d,0x6d,0x4d}, {0x6e,0x4e,0x6e,0x4e}, {0x6f,0x4f,0x6f,0x4f}, {0x70,0x50,0x70,0x50},
{0x71,0x51,0x71,0x51}, {0x72,0x52,0x72,0x52}, {0x73,0x53,0x73,0x53}, {0x74,0x54,0x74,0x54}, {0x75,0x55,0x75,0x55}, {0x76,0x56,0x76,0x56},
{0x77,0x57,0x77,0x57}, {0x78,0x58,0x78,0x58}, {0x79,0x59,0x79,0x59}, {0x7a,0x5a,0x7a,0x5a}, {0xb5,0x39c,0xb5,0x39c}, {0xc0,0xc0,0xe0,0xc0},
{0xc1,0xc1,0xe1,0xc1}, {0xc2,0xc2,0xe2,0xc2}, {0xc3,0xc3,0xe3,0xc3}, {0xc4,0xc4,0xe4,0xc4}, {0xc5,0xc5,0xe5,0xc5}, {0xc6,0xc6,0xe6,0xc6},
{0xc7,0xc7,0xe7,0xc7}, {0xc8,0xc8,0xe8,0xc8}, {0xc9,0xc9,0xe9,0xc9}, {0xca,0xca,0xea,0xca}, {0xcb,0xcb,0xeb,0xcb}, {0xcc,0xcc,0xec,0xcc},
{0xcd,0xcd,0xed,0xcd}, {0xce,0xce,0xee,0xce}, {0xcf,0xcf,0xef,0xcf}, {0xd0,0xd0,0xf0,0xd0}, {0xd1,0xd1,0xf1,0xd1}, {0xd2,0xd2,0xf2,0xd2},
{0xd3,0xd3,0xf3,0xd3}, {0xd4,0xd4,0xf4,0xd4}, {0xd5,0xd5,0xf5,0xd5}, {0xd6,0xd6,0xf6,0xd6}, {0xd8,0xd8,0xf8,0xd8}, {0xd9,0xd9,0xf9,0xd9},
{0xda,0xda,0xfa,0xda}, {0xdb,0xdb,0xfb,0xdb}, {0xdc,0xdc,0xfc,0xdc}, {0xdd,0xdd,0xfd,0xdd}, {0xde,0xde,0xfe,0xde}, {0xe0,0xc0,0xe0,0xc0},
{0xe1,0xc1,0xe1,0xc1}, {0xe2,0xc2,0xe2,0xc2}, {0xe3,0xc3,0xe3,0xc3}, {0xe4,0xc4,0xe4,0xc4}, {0xe5,0xc5,0xe5,0xc5}, {0xe6,0xc6,0xe6,0xc6},
{0xe7,0xc7,0xe7,0xc7}, {0xe8,0xc8,0xe8,0xc8}, {0xe9,0xc9,0xe9,0xc9}, {0xea,0xca,0xea,0xca}, {0xeb,0xcb,0xeb,0xcb}, {0xec,0xcc,0xec,0xcc},
{0xed,0xcd,0xed,0xcd}, {0xee,0xce,0xee,0xce}, {0xef,0xcf,0xef,0xcf}, {0xf0,0xd0,0xf0,0xd0}, {0xf1,0xd1,0xf1,0xd1}, {0xf2,0xd2,0xf2,0xd2},
{0xf3,0xd3,0xf3,0xd3}, {0xf4,0xd4,0xf4,0xd4}, {0xf5,0xd5,0xf5,0xd5}, {0xf6,0xd6,0xf6,0xd6}, {0xf8,0xd8,0xf8,0xd8}, {0xf9,0xd9,0xf9,0xd9},
{0xfa,0xda,0xfa,0xda}, {0xfb,0xdb,0xfb,0xdb}, {0xfc,0xdc,0xfc,0xdc}, {0xfd,0xdd,0xfd,0xdd}, {0xfe,0xde,0xfe,0xde}, {0xff,0x178,0xff,0x178},
{0x100,0x100,0x101,0x100}, {0x101,0x100,0x101,0x100}, {0x102,0x102,0x103,0x102}, {0x103,0x102,0x103,0x102}, {0x104,0x104,0x105,0x104}, {0x105,0x104,0x105,0x104},
{0x106,0x106,0x107,0x106}, {0x107,0x106,0x107,0x106}, {0x108,0x108,0x109,0x108}, {0x109,0x108,0x109,0x108}, {0x10a,0x10a,0x10b,0x10a}, {0x10b,0x10a,0x10b,0x10a},
{0x10c,0x10c,0x10d,0x10c}, {0x10d,0x10c,0x10d,0x10c}, {0x10e,0x10e,0x10f,0x10e}, {0x10f,0x10e,0x10f,0x10e}, {0x110,0x110,0x111,0x110}, {0x111,0x110,0x111,0x110},
{0x112,0x112,0x113,0x112}, {0x113,0x112,0x113,0x112}, {0x114,0x114,0x115,0x114}, {0x115,0x114,0x115,0x114}, {0x116,0x116,0x117,0x116}, {0x117,0x116,0x117,0x116},
{0x118,0x118,0x119,0x118}, {0x119,0x118,0x119,0x118}, {0x11a,0x11a,0x11b,0x11a}, {0x11b,0x11a,0x11b,0x11a}, {0x11c,0x11c,0x11d,0x11c}, {0x11d,0x11c,0x11d,0x11c},
{0x11e,0x11e,0x11f,0x11e}, {0x11f,0x11e,0x11f,0x11e}, {0x120,0x120,0x121,0x120}, {0x121,0x120,0x121,0x120}, {0x122,0x122,0x123,0x122}, {0x123,0x122,0x123,0x122},
{0x124,0x124,0x125,0x124}, {0x125,0x124,0x125,0x124}, {0x126,0x126,0x127,0x126}, {0x127,0x126,0x127,0x126}, {0x128,0x128,0x129,0x128}, {0x129,0x128,0x129,0x128},
{0x12a,0x12a,0x12b,0x12a}, {0x12b,0x12a,0x12b,0x12a}, {0x12c,0x12c,0x12d,0x12c}, {0x12d,0x12c,0x12d,0x12c}, {0x12e,0x12e,0x12f,0x12e}, {0x12f,0x12e,0x12f,0x12e},
{0x130,0x130,0x69,0x130}, {0x131,0x49,0x131,0x49}, {0x132,0x132,0x133,0x132}, {0x133,0x132,0x133,0x132}, {0x134,0x134,0x135,0x134}, {0x135,0x134,0x135,0x134},
{0x136,0x136,0x137,0x136}, {0x137,0x136,0x137,0x136}, {0x139,0x139,0x13a,0x139}, {0x13a,0x139,0x13a,0x139}, {0x13b,0x13b,0x13c,0x13b}, {0x13c,0x13b,0x13c,0x13b},
{0x13d,0x13d,0x13e,0x13d}, {0x13e,0x13d,0x13e,0x13d}, {0x13f,0x13f,0x140,0x13f}, {0x140,0x13f,0x140,0x13f}, {0x141,0x141,0x142,0x141}, {0x142,0x141,0x142,0x141},
{0x143,0x143,0x144,0x143}, {0x144,0x143,0x144,0x143}, {0x145,0x145,0x146,0x145}, {0x146,0x145,0x146,0x145}, {0x147,0x147,0x148,0x147}, {0x148,0x147,0x148,0x147},
{0x14a,0x14a,0x14b,0x14a}, {0x14b,0x14a,0x14b,0x14a}, {0x14c,0x14c,0x14d,0x14c}, {0x14d,0x14c,0x14d,0x14c}, {0x14e,0x14e,0x14f,0x14e}, {0x14f,0x14e,0x14f,0x14e},
{0x150,0x150,0x151,0x150}, {0x151,0x150,0x151,0x150}, {0x152,0x152,0x153,0x152}, {0x153,0x152,0x153,0x152}, {0x154,0x154,0x155,0x154}, {0x155,0x154,0x155,0x154},
{0x156,0x156,0x157,0x156}, {0x157,0x156,0x157,0x156}, {0x158,0x158,0x159,0x158}, {0x159,0x158,0x159,0x158}, {0x15a,0x15a,0x15b,0x15a}, {0x15b,0x15a,0x15b,0x15a},
{0x15c,0x15c,0x15d,0x15c}, {0x15d,0x15c,0x15d,0x15c}, {0x15e,0x15e,0x15f,0x15e}, {0x15f,0x15e,0x15f,0x15e}, {0x160,0x160,0x161,0x160}, {0x161,0x160,0x161,0x160},
{0x162,0x162,0x163,0x162}, {0x163,0x162,0x163,0x162}, {0x164,0x164,0x165,0x164}, {0x165,0x164,0x165,0x164}, {0x166,0x166,0x167,0x166}, {0x167,0x166,0x167,0x166},
{0x168,0x168,0x169,0x168}, {0x169,0x168,0x169,0x168}, {0x16a,0x16a,0x16b,0x16a}, {0x16b,0x16a,0x16b,0x16a}, {0x16c,0x16c,0x16d,0x16c}, {0x16d,0x16c,0x16d,0x16c},
{0x16e,0x16e,0x16f,0x16e}, {0x16f,0x16e,0x16f,0x16e}, {0x170,0x170,0x171,0x170}, {0x171,0x170,0x171,0x170}, {0x172,0x172,0x173,0x172}, {0x173,0x172,0x173,0x172},
{0x174,0x174,0x175,0x174}, {0x175,0x174,0x175,0x174}, {0x176,0x176,0x177,0x176}, {0x177,0x176,0x177,0x176}, {0x178,0x178,0xff,0x178}, {0x179,0x179,0x17a,0x179},
{0x17a,0x179,0x17a,0x179}, {0x17b,0x17b,0x17c,0x17b}, {0x17c,0x17b,0x17c,0x17b}, {0x17d,0x17d,0x17e,0x17d}, {0x17e,0x17d,0x17e,0x17d}, {0x17f,0x53,0x17f,0x53},
{0x180,0x243,0x180,0x243}, {0x181,0x181,0x253,0x181}, {0x182,0x182,0x183,0x182}, {0x183,0x182,0x183,0x182}, {0x184,0x184,0x185,0x184}, {0x185,0x184,0x185,0x184},
{0x186,0x186,0x254,0x186}, {0x187,0x187,0x188,0x187}, {0x188,0x187,0x188,0x187}, {0x189,0x189,0x256,0x189}, {0x18a,0x18a,0x257,0x18a}, {0x18b,0x18b,0x18c,0x18b},
{0x18c,0x18b,0x18c,0x18b}, {0x18e,0x18e,0x1dd,0x18e}, {0x18f,0x18f,0x259,0x18f}, {0x190,0x190,0x25b,0x190}, {0x191,0x191,0x192,0x191}, {0x192,0x191,0x192,0x191},
{0x193,0x193,0x260,0x193}, {0x194,0x194,0x263,0x194}, {0x195,0x1f6,0x195,0x1f6}, {0x196,0x196,0x269,0x196}, {0x197,0x197,0x268,0x197}, {0x198,0x198,0x199,0x198},
{0x199,0x198,0x199,0x198}, {0x19a,0x23d,0x19a,0x23d}, {0x19b,0xa7dc,0x19b,0xa7dc}, {0x19c,0x19c,0x26f,0x19c}, {0x19d,0x19d,0x272,0x19d}, {0x19e,0x220,0x19e,0x220},
{0x19f,0x19f,0x275,0x19f}, {0x1a0,0x1a0,0x1a1,0x1a0}, {0x1a1,0x1a0,0x1a1,0x1a0}, {0x1a2,0x1a2,0x1a3,0x1a2}, {0x1a3,0x1a2,0x1a3,0x1a2}, {0x1a4,0x1a4,0x1a5,0x1a4},
{0x1a5,0x1a4,0x1a5,0x1a4}, {0x1a6,0x1a6,0x280,0x1a6}, {0x1a7,0x1a7,0x1a8,0x1a7}, {0x1a8,0x1a7,0x1a8,0x1a7}, {0x1a9,0x1a9,0x283,0x1a9}, {0x1ac,0x1ac,0x1ad,0x1ac},
{0x1ad,0x1ac,0x1ad,0x1ac}, {0x1ae,0x1ae,0x288,0x1ae}, {0x1af,0x1af,0x1b0,0x1af}, {0x1b0,0x1af,0x1b0,0x1af}, {0x1b1,0x1b1,0x28a,0x1b1}, {0x1b2,0x1b2,0x28b,0x1b2},
{0x1b3,0x1b3,0x1b4,0x1b3}, {0x1b4,0x1b3,0x1b4,0x1b3}, {0x1b5,0x1b5,0x1b6,0x1b5}, {0x1b6,0x1b5,0x1b6,0x1b5}, {0x1b7,0x1b7,0x292,0x1b7}, {0x1b8,0x1b8,0x1b9,0x1b8},
{0x1b9,0x1b8,0x1b9,0x1b8}, {0x1bc,0x1bc,0x1bd,0x1bc}, {0x1bd,0x1bc,0x1bd,0x1bc}, {0x1bf,0x1f7,0x1bf,0x1f7}, {0x1c4,0x1c4,0x1c6,0x1c5}, {0x1c5,0x1c4,0x1c6,0x1c5},
{0x1c6,0x1c4,0x1c6,0x1c5}, {0x1c7,0x1c7,0x1c9,0x1c8}, {0x1c8,0x1c7,0x1c9,0x1c8}, {0x1c9,0x1c7,0x1c9,0x1c8}, {0x1ca,0x1ca,0x1cc,0x1cb}, {0x1cb,0x1ca,0x1cc,0x1cb},
{0x1cc,0x1ca,0x1cc,0x1cb}, {0x1cd,0x1cd,0x1ce,0x1cd}, {0x1ce,0x1cd,0x1ce,0x1cd}, {0x1cf,0x1cf,0x1d0,0x1cf}, {0x1d0,0x1cf,0x1d0,0x1cf}, {0x1d1,0x1d1,0x1d2,0x1d1},
{0x1d2,0x1d1,0x1d2,0x1d1}, {0x1d3,0x1d3,0x1d4,0x1d3}, {0x1d4,0x1d3,0x1d4,0x1d3}, {0x1d5,0x1d5,0x1d6,0x1d5}, {0x1d6,0x1d5,0x1d6,0x1d5}, {0x1d7,0x1d7,0x1d8,0x1d7},
{0x1d8,0x1d7,0x1d8,0x1d7}, {0x1d9,0x1d9,0x1da,0x1d9}, {0x1da,0x1d9,0x1da,0x1d9}, {0x1db,0x1db,0x1dc,0x1db}, {0x1dc,0x1db,0x1dc,0x1db}, {0x1dd,0x18e,0x1dd,0x18e},
{0x1de,0x1de,0x1df,0x1de}, {0x1df,0x1de,0x1df,0x1de}, {0x1e0,0x1e0,0x1e1,0x1e0}, {0x1e1,0x1e0,0x1e1,0x1e0}, {0x1e2,0x1e2,0x1e3,0x1e2}, {0x1e3,0x1e2,0x1e3,0x1e2},
{0x1e4,0x1e4,0x1e5,0x1e4}, {0x1e5,0x1e4,0x1e5,0x1e4}, {0x1e6,0x1e6,0x1e7,0x1e6}, {0x1e7,0x1e6,0x1e7,0x1e6}, {0x1e8,0x1e8,0x1e9,0x1e8}, {0x1e9,0x1e8,0x1e9,0x1e8},
{0x1ea,0x1ea,0x1eb,0x1ea}, {0x1eb,0x1ea,0x1eb,0x1ea}, {0x1ec,0x1ec,0x1ed,0x1ec}, {0x1ed,0x1ec,0x1ed,0x1ec}, {0x1ee,0x1ee,0x1ef,0x1ee}, {0x1ef,0x1ee,0x1ef,0x1ee},
{0x1f1,0x1f1,0x1f3,0x1f2}, {0x1f2,0x1f1,0x1f3,0x1f2}, {0x1f3,0x1f1,0x1f3,0x1f2}, {0x1f4,0x1f4,0x1f5,0x1f4}, {0x1f5,0x1f4,0x1f5,0x1f4}, {0x1f6,0x1f6,0x195,0x1f6},
{0x1f7,0x1f7,0x1bf,0x1f7}, {0x1f8,0x1f8,0x1f9,0x1f8}, {0x1f9,0x1f8,0x1f9,0x1f8}, {0x1fa,0x1fa,0x1fb,0x1fa}, {0x1fb,0x1fa,0x1fb,0x1fa}, {0x1fc,0x1fc,0x1fd,0x1fc},
{0x1fd,0x1fc,0x1fd,0x1fc}, {0x1fe,0x1fe,0x1ff,0x1fe}, {0x1ff,0x1fe,0x1ff,0x1fe}, {0x200,0x200,0x201,0x200}, {0x201,0x200,0x201,0x200}, {0x202,0x202,0x203,0x202},
{0x203,0x202,0x203,0x202}, {0x204,0x204,0x205,0x204}, {0x205,0x204,0x205,0x204}, {0x206,0x206,0x207,0x206}, {0x207,0x206,0x207,0x206}, {0x208,0x208,0x209,0x208},
{0x209,0x208,0x209,0x208}, {0x20a,0x20a,0x20b,0x20a}, {0x20b,0x20a,0x20b,0x20a}, {0x20c,0x20c,0x20d,0x20c}, {0x20d,0x20c,0x20d,0x20c}, {0x20e,0x20e,0x20f,0x20e},
{0x20f,0x20e,0x20f,0x20e}, {0x210,0x210,0x211,0x210}, {0x211,0x210,0x211,0x210}, {0x212,0x212,0x213,0x212}, {0x213,0x212,0x213,0x212}, {0x214,0x214,0x215,0x214},
{0x215,0x214,0x215,0x214}, {0x216,0x216,0x217,0x216}, {0x217,0x216,0x217,0x216}, {0x218,0x218,0x219,0x218}, {0x219,0x218,0x219,0x218}, {0x21a,0x21a,0x21b,0x21a},
{0x21b,0x21a,0x21b,0x21a}, {0x21c,0x21c,0x21d,0x21c}, {0x21d,0x21c,0x21d,0x21c}, {0x21e,0x21e,0x21f,0x21e}, {0x21f,0x21e,0x21f,0x21e}, {0x220,0x220,0x19e,0x220},
{0x222,0x222,0x223,0x222}, {0x223,0x222,0x223,0x222}, {0x224,0x224,0x225,0x224}, {0x225,0x224,0x225,0x224}, {0x226,0x226,0x227,0x226}, {0x227,0x226,0x227,0x226},
{0x228,0x228,0x229,0x228}, {0x229,0x228,0x229,0x228}, {0x22a,0x22a,0x22b,0x22a}, {0x22b,0x22a,0x22b,0x22a}, {0x22c,0x22c,0x22d,0x22c}, {0x22d,0x22c,0x22d,0x22c},
{0x22e,0x22e,0x22f,0x22e}, {0x22f,0x22e,0x22f,0x22e}, {0x230,0x230,0x231,0x230}, {0x231,0x230,0x231,0x230}, {0x232,0x232,0x233,0x232}, {0x233,0x232,0x233,0x232},
{0x23a,0x23a,0x2c65,0x23a}, {0x23b,0x23b,0x23c,0x23b}, {0x23c,0x23b,0x23c,0x23b}, {0x23d,0x23d,0x19a,0x23d}, {0x23e,0x23e,0x2c66,0x23e}, {0x23f,0x2c7e,0x23f,0x2c7e},
{0x240,0x2c7f,0x240,0x2c7f}, {0x241,0x241,0x242,0x241}, {0x242,0x241,0x242,0x241}, {0x243,0x243,0x180,0x243}, {0x244,0x244,0x289,0x244}, {0x245,0x245,0x28c,0x245},
{0x246,0x246,0x247,0x246}, {0x247,0x246,0x247,0x246}, {0x248,0x248,0x249,0x248}, {0x249,0x248,0x249,0x248}, {0x24a,0x24a,0x24b,0x24a}, {0x24b,0x24a,0x24b,0x24a},
{0x24c,0x24c,0x24d,0x24c}, {0x24d,0x24c,0x24d,0x24c}, {0x24e,0x24e,0x24f,0x24e}, {0x24f,0x24e,0x24f,0x24e}, {0x250,0x2c6f,0x250,0x2c6f}, {0x251,0x2c6d,0x251,0x2c6d},
{0x252,0x2c70,0x252,0x2c70}, {0x253,0x181,0x253,0x181}, {0x254,0x186,0x254,0x186}, {0x256,0x189,0x256,0x189}, {0x257,0x18a,0x257,0x18a}, {0x259,0x18f,0x259,0x18f},
{0x25b,0x190,0x25b,0x190}, {0x25c,0xa7ab,0x25c,0xa7ab}, {0x260,0x193,0x260,0x193}, {0x261,0xa7ac,0x261,0xa7ac}, {0x263,0x194,0x263,0x194}, {0x264,0xa7cb,0x264,0xa7cb},
{0x265,0xa78d,0x265,0xa78d}, {0x266,0xa7aa,0x266,0xa7aa}, {0x268,0x197,0x268,0x197}, {0x269,0x196,0x269,0x196}, {0x26a,0xa7ae,0x26a,0xa7ae}, {0x26b,0x2c62,0x26b,0x2c62},
{0x26c,0xa7ad,0x26c,0xa7ad}, {0x26f,0x19c,0x26f,0x19c}, {0x271,0x2c6e,0x271,0x2c6e}, {0x272,0x19d,0x272,0x19d}, {0x275,0x19f,0x275,0x19f}, {0x27d,0x2c64,0x27d,0x2c64},
{0x280,0x1a6,0x280,0x1a6}, {0x282,0xa7c5,0x282,0xa7c5}, {0x283,0x1a9,0x283,0x1a9}, {0x287,0xa7b1,0x287,0xa7b1}, {0x288,0x1ae,0x288,0x1ae}, {0x289,0x244,0x289,0x244},
{0x28a,0x1b1,0x28a,0x1b1}, {0x28b,0x1b2,0x28b,0x1b2}, {0x28c,0x245,0x28c,0x245}, {0x292,0x1b7,0x292,0x1b7}, {0x29d,0xa7b2,0x29d,0xa7b2}, {0x29e,0xa7b0,0x29e,0xa7b0},
{0x345,0x399,0x345,0x399}, {0x370,0x370,0x371,0x370}, {0x371,0x370,0x371,0x370}, {0x372,0x372,0x373,0x372}, {0x373,0x372,0x373,0x372}, {0x376,0x376,0x377,0x376},
{0x377,0x376,0x377,0x376}, {0x37b,0x3fd,0x37b,0x3fd}, {0x37c,0x3fe,0x37c,0x3fe}, {0x37d,0x3ff,0x37d,0x3ff}, {0x37f,0x37f,0x3f3,0x37f}, {0x386,0x386,0x3ac,0x386},
{0x388,0x388,0x3ad,0x388}, {0x389,0x389,0x3ae,0x389}, {0x38a,0x38a,0x3af,0x38a}, {0x38c,0x38c,0x3cc,0x38c}, {0x38e,0x38e,0x3cd,0x38e}, {0x38f,0x38f,0x3ce,0x38f},
{0x391,0x391,0x3b1,0x391}, {0x392,0x392,0x3b2,0x392}, {0x393,0x393,0x3b3,0x393}, {0x394,0x394,0x3b4,0x394}, {0x395,0x395,0x3b5,0x395}, {0x396,0x396,0x3b6,0x396},
{0x397,0x397,0x3b7,0x397}, {0x398,0x398,0x3b8,0x398}, {0x399,0x399,0x3b9,0x399}, {0x39a,0x39a,0x3ba,0x39a}, {0x39b,0x39b,0x3bb,0x39b}, {0x39c,0x39c,0x3bc,0x39c},
{0x39d,0x39d,0x3bd,0x39d}, {0x39e,0x39e,0x3be,0x39e}, {0x39f,0x39f,0x3bf,0x39f}, {0x3a0,0x3a0,0x3c0,0x3a0}, {0x3a1,0x3a1,0x3c1,0x3a1}, {0x3a3,0x3a3,0x3c3,0x3a3},
{0x3a4,0x3a4,0x3c4,0x3a4}, {0x3a5,0x3a5,0x3c5,0x3a5}, {0x3a6,0x3a6,0x3c6,0x3a6}, {0x3a7,0x3a7,0x3c7,0x3a7}, {0x3a8,0x3a8,0x3c8,0x3a8}, {0x3a9,0x3a9,0x3c9,0x3a9},
{0x3aa,0x3aa,0x3ca,0x3aa}, {0x3ab,0x3ab,0x3cb,0x3ab}, {0x3ac,0x386,0x3ac,0x386}, {0x3ad,0x388,0x3ad,0x388}, {0x3ae,0x389,0x3ae,0x389}, {0x3af,0x38a,0x3af,0x38a},
{0x3b1,0x391,0x3b1,0x391}, {0x3b2,0x392,0x3b2,0x392}, {0x3b3,0x393,0x3b3,0x393}, {0x3b4,0x394,0x3b4,0x394}, {0x3b5,0x395,0x3b5,0x395}, {0x3b6,0x396,0x3b6,0x396},
{0x3b7,0x397,0x3b7,0x397}, {0x3b8,0x398,0x3b8,0x398}, {0x3b9,0x399,0x3b9,0x399}, {0x3ba,0x39a,0x3ba,0x39a}, {0x3bb,0x39b,0x3bb,0x39b}, {0x3bc,0x39c,0x3bc,0x39c},
{0x3bd,0x39d,0x3bd,0x39d}, {0x3be,0x39e,0x3be,0x39e}, {0x3bf,0x39f,0x3bf,0x39f}, {0x3c0,0x3a0,0x3c0,0x3a0}, {0x3c1,0x3a1,0x3c1,0x3a1}, {0x3c2,0x3a3,0x3c2,0x3a3},
{0x3c3,0x3a3,0x3c3,0x3a3}, {0x3c4,0x3a4,0x3c4,0x3a4}, {0x3c5,0x3a5,0x3c5,0x3a5}, {0x3c6,0x3a6,0x3c6,0x3a6}, {0x3c7,0x3a7,0x3c7,0x3a7}, {0x3c8,0x3a8,0x3c8,0x3a8},
{0x3c9,0x3a9,0x3c9,0x3a9}, {0x3ca,0x3aa,0x3ca,0x3aa}, {0x3cb,0x3ab,0x3cb,0x3ab}, {0x3cc,0x38c,0x3cc,0x38c}, {0x3cd,0x38e,0x3cd,0x38e}, {0x3ce,0x38f,0x3ce,0x38f},
{0x3cf,0x3cf,0x3d7,0x3cf}, {0x3d0,0x392,0x3d0,0x392}, {0x3d1,0x398,0x3d1,0x398}, {0x3d5,0x3a6,0x3d5,0x3a6}, {0x3d6,0x3a0,0x3d6,0x3a0}, {0x3d7,0x3cf,0x3d7,0x3cf},
{0x3d8,0x3d8,0x3d9,0x3d8}, {0x3d9,0x3d8,0x3d9,0x3d8}, {0x3da,0x3da,0x3db,0x3da}, {0x3db,0x3da,0x3db,0x3da}, {0x3dc,0x3dc,0x3dd,0x3dc}, {0x3dd,0x3dc,0x3dd,0x3dc},
{0x3de,0x3de,0x3df,0x3de}, {0x3df,0x3de,0x3df,0x3de}, {0x3e0,0x3e0,0x3e1,0x3e0}, {0x3e1,0x3e0,0x3e1,0x3e0}, {0x3e2,0x3e2,0x3e3,0x3e2}, {0x3e3,0x3e2,0x3e3,0x3e2},
{0x3e4,0x3e4,0x3e5,0x3e4}, {0x3e5,0x3e4,0x3e5,0x3e4}, {0x3e6,0x3e6,0x3e7,0x3e6}, {0x3e7,0x3e6,0x3e7,0x3e6}, {0x3e8,0x3e8,0x3e9,0x3e8}, {0x3e9,0x3e8,0x3e9,0x3e8},
{0x3ea,0x3ea,0x3eb,0x3ea}, {0x3eb,0x3ea,0x3eb,0x3ea}, {0x3ec,0x3ec,0x3ed,0x3ec}, {0x3ed,0x3ec,0x3ed,0x3ec}, {0x3ee,0x3ee,0x3ef,0x3ee}, {0x3ef,0x3ee,0x3ef,0x3ee},
{0x3f0,0x39a,0x3f0,0x39a}, {0x3f1,0x3a1,0x3f1,0x3a1}, {0x3f2,0x3f9,0x3f2,0x3f9}, {0x3f3,0x37f,0x3f3,0x37f}, {0x3f4,0x3f4,0x3b8,0x3f4}, {0x3f5,0x395,0x3f5,0x395},
{0x3f7,0x3f7,0x3f8,0x3f7}, {0x3f8,0x3f7,0x3f8,0x3f7}, {0x3f9,0x3f9,0x3f2,0x3f9}, {0x3fa,0x3fa,0x3fb,0x3fa}, {0x3fb,0x3fa,0x3fb,0x3fa}, {0x3fd,0x3fd,0x37b,0x3fd},
{0x3fe,0x3fe,0x37c,0x3fe}, {0x3ff,0x3ff,0x37d,0x3ff}, {0x400,0x400,0x450,0x400}, {0x401,0x401,0x451,0x401}, {0x402,0x402,0x452,0x402}, {0x403,0x403,0x453,0x403},
{0x404,0x404,0x454,0x404}, {0x405,0x405,0x455,0x405}, {0x406,0x406,0x456,0x406}, {0x407,0x407,0x457,0x407}, {0x408,0x408,0x458,0x408}, {0x409,0x409,0x459,0x409},
{0x40a,0x40a,0x45a,0x40a}, {0x40b,0x40b,0x45b,0x40b}, {0x40c,0x40c,0x45c,0x40c}, {0x40d,0x40d,0x45d,0x40d}, {0x40e,0x40e,0x45e,0x40e}, {0x40f,0x40f,0x45f,0x40f},
{0x410,0x410,0x430,0x410}, {0x411,0x411,0x431,0x411}, {0x412,0x412,0x432,0x412}, {0x413,0x413,0x433,0x413}, {0x414,0x414,0x434,0x414}, {0x415,0x415,0x435,0x415},
{0x416,0x416,0x436,0x416}, {0x417,0x417,0x437,0x417}, {0x418,0x418,0x438,0x418}, {0x419,0x419,0x439,0x419}, {0x41a,0x41a,0x43a,0x41a}, {0x41b,0x41b,0x43b,0x41b},
{0x41c,0x41c,0x43c,0x41c}, {0x41d,0x41d,0x43d,0x41d}, {0x41e,0x41e,0x43e,0x41e}, {0x41f,0x41f,0x43f,0x41f}, {0x420,0x420,0x440,0x420}, {0x421,0x421,0x441,0x421},
{0x422,0x422,0x442,0x422}, {0x423,0x423,0x443,0x423}, {0x424,0x424,0x444,0x424}, {0x425,0x425,0x445,0x425}, {0x426,0x426,0x446,0x426}, {0x427,0x427,0x447,0x427},
{0x428,0x428,0x448,0x428}, {0x429,0x429,0x449,0x429}, {0x42a,0x42a,0x44a,0x42a}, {0x42b,0x42b,0x44b,0x42b}, {0x42c,0x42c,0x44c,0x42c}, {0x42d,0x42d,0x44d,0x42d},
{0x42e,0x42e,0x44e,0x42e}, {0x42f,0x42f,0x44f,0x42f}, {0x430,0x410,0x430,0x410}, {0x431,0x411,0x431,0x411}, {0x432,0x412,0x432,0x412}, {0x433,0x413,0x433,0x413},
{0x434,0x414,0x434,0x414}, {0x435,0x415,0x435,0x415}, {0x436,0x416,0x436,0x416}, {0x437,0x417,0x437,0x417}, {0x438,0x418,0x438,0x418}, {0x439,0x419,0x439,0x419},
{0x43a,0x41a,0x43a,0x41a}, {0x43b,0x41b,0x43b,0x41b}, {0x43c,0x41c,0x43c,0x41c}, {0x43d,0x41d,0x43d,0x41d}, {0x43e,0x41e,0x43e,0x41e}, {0x43f,0x41f,0x43f,0x41f},
{0x440,0x420,0x440,0x420}, {0x441,0x421,0x441,0x421}, {0x442,0x422,0x442,0x422}, {0x443,0x423,0x443,0x423}, {0x444,0x424,0x444,0x424}, {0x445,0x425,0x445,0x425},
{0x446,0x426,0x446,0x426}, {0x447,0x427,0x447,0x427}, {0x448,0x428,0x448,0x428}, {0x449,0x429,0x449,0x429}, {0x44a,0x42a,0x44a,0x42a}, {0x44b,0x42b,0x44b,0x42b},
{0x44c,0x42c,0x44c,0x42c}, {0x44d,0x42d,0x44d,0x42d}, {0x44e,0x42e,0x44e,0x42e}, {0x44f,0x42f,0x44f,0x42f}, {0x450,0x400,0x450,0x400}, {0x451,0x401,0x451,0x401},
{0x452,0x402,0x452,0x402}, {0x453,0x403,0x453,0x403}, {0x454,0x404,0x454,0x404}, {0x455,0x405,0x455,0x405}, {0x456,0x406,0x456,0x406}, {0x457,0x407,0x457,0x407},
{0x458,0x408,0x458,0x408}, {0x459,0x409,0x459,0x409}, {0x45a,0x40a,0x45a,0x40a}, {0x45b,0x40b,0x45b,0x40b}, {0x45c,0x40c,0x45c,0x40c}, {0x45d,0x40d,0x45d,0x40d},
{0x45e,0x40e,0x45e,0x40e}, {0x45f,0x40f,0x45f,0x40f}, {0x460,0x460,0x461,0x460}, {0x461,0x460,0x461,0x460}, {0x462,0x462,0x463,0x462}, {0x463,0x462,0x463,0x462},
{0x464,0x464,0x465,0x464}, {0x465,0x464,0x465,0x464}, {0x466,0x466,0x467,0x466}, {0x467,0x466,0x467,0x466}, {0x468,0x468,0x469,0x468}, {0x469,0x468,0x469,0x468},
{0x46a,0x46a,0x46b,0x46a}, {0x46b,0x46a,0x46b,0x46a}, {0x46c,0x46c,0x46d,0x46c}, {0x46d,0x46c,0x46d,0x46c}, {0x46e,0x46e,0x46f,0x46e}, {0x46f,0x46e,0x46f,0x46e},
{0x470,0x470,0x471,0x470}, {0x471,0x470,0x471,0x470}, {0x472,0x472,0x473,0x472}, {0x473,0x472,0x473,0x472}, {0x474,0x474,0x475,0x474}, {0x475,0x474,0x475,0x474},
{0x476,0x476,0x477,0x476}, {0x477,0x476,0x477,0x476}, {0x478,0x478,0x479,0x478}, {0x479,0x478,0x479,0x478}, {0x47a,0x47a,0x47b,0x47a}, {0x47b,0x47a,0x47b,0x47a},
{0x47c,0x47c,0x47d,0x47c}, {0x47d,0x47c,0x47d,0x47c}, {0x47e,0x47e,0x47f,0x47e}, {0x47f,0x47e,0x47f,0x47e}, {0x480,0x480,0x481,0x480}, {0x481,0x480,0x481,0x480},
{0x48a,0x48a,0x48b,0x48a}, {0x48b,0x48a,0x48b,0x48a}, {0x48c,0x48c,0x48d,0x48c}, {0x48d,0x48c,0x48d,0x48c}, {0x48e,0x48e,0x48f,0x48e}, {0x48f,0x48e,0x48f,0x48e},
{0x490,0x490,0x491,0x490}, {0x491,0x490,0x491,0x490}, {0x492,0x492,0x493,0x492}, {0x493,0x492,0x493,0x492}, {0x494,0x494,0x495,0x494}, {0x495,0x494,0x495,0x494},
{0x496,0x496,0x497,0x496}, {0x497,0x496,0x497,0x496}, {0x498,0x498,0x499,0x498}, {0x499,0x498,0x499,0x498}, {0x49a,0x49a,0x49b,0x49a}, {0x49b,0x49a,0x49b,0x49a},
{0x49c,0x49c,0x49d,0x49c}, {0x49d,0x49c,0x49d,0x49c}, {0x49e,0x49e,0x49f,0x49e}, {0x49f,0x49e,0x49f,0x49e}, {0x4a0,0x4a0,0x4a1,0x4a0}, {0x4a1,0x4a0,0x4a1,0x4a0},
{0x4a2,0x4a2,0x4a3,0x4a2}, {0x4a3,0x4a2,0x4a3,0x4a2}, {0x4a4,0x4a4,0x4a5,0x4a4}, {0x4a5,0x4a4,0x4a5,0x4a4}, {0x4a6,0x4a6,0x4a7,0x4a6}, {0x4a7,0x4a6,0x4a7,0x4a6},
{0x4a8,0x4a8,0x4a9,0x4a8}, {0x4a9,0x4a8,0x4a9,0x4a8}, {0x4aa,0x4aa,0x4ab,0x4aa}, {0x4ab,0x4aa,0x4ab,0x4aa}, {0x4ac,0x4ac,0x4ad,0x4ac}, {0x4ad,0x4ac,0x4ad,0x4ac},
{0x4ae,0x4ae,0x4af,0x4ae}, {0x4af,0x4ae,0x4af,0x4ae}, {0x4b0,0x4b0,0x4b1,0x4b0}, {0x4b1,0x4b0,0x4b1,0x4b0}, {0x4b2,0x4b2,0x4b3,0x4b2}, {0x4b3,0x4b2,0x4b3,0x4b2},
{0x4b4,0x4b4,0x4b5,0x4b4}, {0x4b5,0x4b4,0x4b5,0x4b4}, {0x4b6,0x4b6,0x4b7,0x4b6}, {0x4b7,0x4b6,0x4b7,0x4b6}, {0x4b8,0x4b8,0x4b9,0x4b8}, {0x4b9,0x4b8,0x4b9,0x4b8},
{0x4ba,0x4ba,0x4bb,0x4ba}, {0x4bb,0x4ba,0x4bb,0x4ba}, {0x4bc,0x4bc,0x4bd,0x4bc}, {0x4bd,0x4bc,0x4bd,0x4bc}, {0x4be,0x4be,0x4bf,0x4be}, {0x4bf,0x4be,0x4bf,0x4be},
{0x4c0,0x4c0,0x4cf,0x4c0}, {0x4c1,0x4c1,0x4c2,0x4c1}, {0x4c2,0x4c1,0x4c2,0x4c1}, {0x4c3,0x4c3,0x4c4,0x4c3}, {0x4c4,0x4c3,0x4c4,0x4c3}, {0x4c5,0x4c5,0x4c6,0x4c5},
{0x4c6,0x4c5,0x4c6,0x4c5}, {0x4c7,0x4c7,0x4c8,0x4c7}, {0x4c8,0x4c7,0x4c8,0x4c7}, {0x4c9,0x4c9,0x4ca,0x4c9}, {0x4ca,0x4c9,0x4ca,0x4c9}, {0x4cb,0x4cb,0x4cc,0x4cb},
{0x4cc,0x4cb,0x4cc,0x4cb}, {0x4cd,0x4cd,0x4ce,0x4cd}, {0x4ce,0x4cd,0x4ce,0x4cd}, {0x4cf,0x4c0,0x4cf,0x4c0}, {0x4d0,0x4d0,0x4d1,0x4d0}, {0x4d1,0x4d0,0x4d1,0x4d0},
{0x4d2,0x4d2,0x4d3,0x4d2}, {0x4d3,0x4d2,0x4d3,0x4d2}, {0x4d4,0x4d4,0x4d5,0x4d4}, {0x4d5,0x4d4,0x4d5,0x4d4}, {0x4d6,0x4d6,0x4d7,0x4d6}, {0x4d7,0x4d6,0x4d7,0x4d6},
{0x4d8,0x4d8,0x4d9,0x4d8}, {0x4d9,0x4d8,0x4d9,0x4d8}, {0x4da,0x4da,0x4db,0x4da}, {0x4db,0x4da,0x4db,0x4da}, {0x4dc,0x4dc,0x4dd,0x4dc}, {0x4dd,0x4dc,0x4dd,0x4dc},
{0x4de,0x4de,0x4df,0x4de}, {0x4df,0x4de,0x4df,0x4de}, {0x4e0,0x4e0,0x4e1,0x4e0}, {0x4e1,0x4e0,0x4e1,0x4e0}, {0x4e2,0x4e2,0x4e3,0x4e2}, {0x4e3,0x4e2,0x4e3,0x4e2},
{0x4e4,0x4e4,0x4e5,0x4e4}, {0x4e5,0x4e4,0x4e5,0x4e4}, {0x4e6,0x4e6,0x4e7,0x4e6}, {0x4e7,0x4e6,0x4e7,0x4e6}, {0x4e8,0x4e8,0x4e9,0x4e8}, {0x4e9,0x4e8,0x4e9,0x4e8},
{0x4ea,0x4ea,0x4eb,0x4ea}, {0x4eb,0x4ea,0x4eb,0x4ea}, {0x4ec,0x4ec,0x4ed,0x4ec}, {0x4ed,0x4ec,0x4ed,0x4ec}, {0x4ee,0x4ee,0x4ef,0x4ee}, {0x4ef,0x4ee,0x4ef,0x4ee},
{0x4f0,0x4f0,0x4f1,0x4f0}, {0x4f1,0x4f0,0x4f1,0x4f0}, {0x4f2,0x4f2,0x4f3,0x4f2}, {0x4f3,0x4f2,0x4f3,0x4f2}, {0x4f4,0x4f4,0x4f5,0x4f4}, {0x4f5,0x4f4,0x4f5,0x4f4},
{0x4f6,0x4f6,0x4f7,0x4f6}, {0x4f7,0x4f6,0x4f7,0x4f6}, {0x4f8,0x4f8,0x4f9,0x4f8}, {0x4f9,0x4f8,0x4f9,0x4f8}, {0x4fa,0x4fa,0x4fb,0x4fa}, {0x4fb,0x4fa,0x4fb,0x4fa},
{0x4fc,0x4fc,0x4fd,0x4fc}, {0x4fd,0x4fc,0x4fd,0x4fc}, {0x4fe,0x4fe,0x4ff,0x4fe}, {0x4ff,0x4fe,0x4ff,0x4fe}, {0x500,0x500,0x501,0x500}, {0x501,0x500,0x501,0x500},
{0x502,0x502,0x503,0x502}, {0x503,0x502,0x503,0x502}, {0x504,0x504,0x505,0x504}, {0x505,0x504,0x505,0x504}, {0x506,0x506,0x507,0x506}, {0x507,0x506,0x507,0x506},
{0x508,0x508,0x509,0x508}, {0x509,0x508,0x509,0x508}, {0x50a,0x50a,0x50b,0x50a}, {0x50b,0x50a,0x50b,0x50a}, {0x50c,0x50c,0x50d,0x50c}, {0x50d,0x50c,0x50d,0x50c},
{0x50e,0x50e,0x50f,0x50e}, {0x50f,0x50e,0x50f,0x50e}, {0x510,0x510,0x511,0x510}, {0x511,0x510,0x511,0x510}, {0x512,0x512,0x513,0x512}, {0x513,0x512,0x513,0x512},
{0x514,0x514,0x515,0x514}, {0x515,0x514,0x515,0x514}, {0x516,0x516,0x517,0x516}, {0x517,0x516,0x517,0x516}, {0x518,0x518,0x519,0x518}, {0x519,0x518,0x519,0x518},
{0x51a,0x51a,0x51b,0x51a}, {0x51b,0x51a,0x51b,0x51a}, {0x51c,0x51c,0x51d,0x51c}, {0x51d,0x51c,0x51d,0x51c}, {0x51e,0x51e,0x51f,0x51e}, {0x51f,0x51e,0x51f,0x51e},
{0x520,0x520,0x521,0x520}, {0x521,0x520,0x521,0x520}, {0x522,0x522,0x523,0x522}, {0x523,0x522,0x523,0x522}, {0x524,0x524,0x525,0x524}, {0x525,0x524,0x525,0x524},
{0x526,0x526,0x527,0x526}, {0x527,0x526,0x527,0x526}, {0x528,0x528,0x529,0x528}, {0x529,0x528,0x529,0x528}, {0x52a,0x52a,0x52b,0x52a}, {0x52b,0x52a,0x52b,0x52a},
{0x52c,0x52c,0x52d,0x52c}, {0x52d,0x52c,0x52d,0x52c}, {0x52e,0x52e,0x52f,0x52e}, {0x52f,0x52e,0x52f,0x52e}, {0x531,0x531,0x561,0x531}, {0x532,0x532,0x562,0x532},
{0x533,0x533,0x563,0x533}, {0x534,0x534,0x564,0x534}, {0x535,0x535,0x565,0x535}, {0x536,0x536,0x566,0x536}, {0x537,0x537,0x567,0x537}, {0x538,0x538,0x568,0x538},
{0x539,0x539,0x569,0x539}, {0x53a,0x53a,0x56a,0x53a}, {0x53b,0x53b,0x56b,0x53b}, {0x53c,0x53c,0x56c,0x53c}, {0x53d,0x53d,0x56d,0x53d}, {0x53e,0x53e,0x56e,0x53e},
{0x53f,0x53f,0x56f,0x53f}, {0x540,0x540,0x570,0x540}, {0x541,0x541,0x571,0x541}, {0x542,0x542,0x572,0x542}, {0x543,0x543,0x573,0x543}, {0x544,0x544,0x574,0x544},
{0x545,0x545,0x575,0x545}, {0x546,0x546,0x576,0x546}, {0x547,0x547,0x577,0x547}, {0x548,0x548,0x578,0x548}, {0x549,0x549,0x579,0x549}, {0x54a,0x54a,0x57a,0x54a},
{0x54b,0x54b,0x57b,0x54b}, {0x54c,0x54c,0x57c,0x54c}, {0x54d,0x54d,0x57d,0x54d}, {0x54e,0x54e,0x57e,0x54e}, {0x54f,0x54f,0x57f,0x54f}, {0x550,0x550,0x580,0x550},
{0x551,0x551,0x581,0x551}, {0x552,0x552,0x582,0x552}, {0x553,0x553,0x583,0x553}, {0x554,0x554,0x584,0x554}, {0x555,0x555,0x585,0x555}, {0x556,0x556,0x586,0x556},
{0x561,0x531,0x561,0x531}, {0x562,0x532,0x562,0x532}, {0x563,0x533,0x563,0x533}, {0x564,0x534,0x564,0x534}, {0x565,0x535,0x565,0x535}, {0x566,0x536,0x566,0x536},
{0x567,0x537,0x567,0x537}, {0x568,0x538,0x568,0x538}, {0x569,0x539,0x569,0x539}, {0x56a,0x53a,0x56a,0x53a}, {0x56b,0x53b,0x56b,0x53b}, {0x56c,0x53c,0x56c,0x53c},
{0x56d,0x53d,0x56d,0x53d}, {0x56e,0x53e,0x56e,0x53e}, {0x56f,0x53f,0x56f,0x53f}, {0x570,0x540,0x570,0x540}, {0x571,0x541,0x571,0x541}, {0x572,0x542,0x572,0x542},
{0x573,0x543,0x573,0x543}, {0x574,0x544,0x574,0x544}, {0x575,0x545,0x575,0x545}, {0x576,0x546,0x576,0x546}, {0x577,0x547,0x577,0x547}, {0x578,0x548,0x578,0x548},
{0x579,0x549,0x579,0x549}, {0x57a,0x54a,0x57a,0x54a}, {0x57b,0x54b,0x57b,0x54b}, {0x57c,0x54c,0x57c,0x54c}, {0x57d,0x54d,0x57d,0x54d}, {0x57e,0x54e,0x57e,0x54e},
{0x57f,0x54f,0x57f,0x54f}, {0x580,0x550,0x580,0x550}, {0x581,0x551,0x581,0x551}, {0x582,0x552,0x582,0x552}, {0x583,0x553,0x583,0x553}, {0x584,0x554,0x584,0x554},
{0x585,0x555,0x585,0x555}, {0x586,0x556,0x586,0x556}, {0x10a0,0x10a0,0x2d00,0x10a0}, {0x10a1,0x10a1,0x2d01,0x10a1}, {0x10a2,0x10a2,0x2d02,0x10a2}, {0x10a3,0x10a3,0x2d03,0x10a3},
{0x10a4,0x10a4,0x2d04,0x10a4}, {0x10a5,0x10a5,0x2d05,0x10a5}, {0x10a6,0x10a6,0x2d06,0x10a6}, {0x10a7,0x10a7,0x2d07,0x10a7}, {0x10a8,0x10a8,0x2d08,0x10a8}, {0x10a9,0x10a9,0x2d09,0x10a9},
{0x10aa,0x10aa,0x2d0a,0x10aa}, {0x10ab,0x10ab,0x2d0b,0x10ab}, {0x10ac,0x10ac,0x2d0c,0x10ac}, {0x10ad,0x10ad,0x2d0d,0x10ad}, {0x10ae,0x10ae,0x2d0e,0x10ae}, {0x10af,0x10af,0x2d0f,0x10af},
{0x10b0,0x10b0,0x2d10,0x10b0}, {0x10b1,0x10b1,0x2d11,0x10b1}, {0x10b2,0x10b2,0x2d12,0x10b2}, {0x10b3,0x10b3,0x2d13,0x10b3}, {0x10b4,0x10b4,0x2d14,0x10b4}, {0x10b5,0x10b5,0x2d15,0x10b5},
{0x10b6,0x10b6,0x2d16,0x10b6}, {0x10b7,0x10b7,0x2d17,0x10b7}, {0x10b8,0x10b8,0x2d18,0x10b8}, {0x10b9,0x10b9,0x2d19,0x10b9}, {0x10ba,0x10ba,0x2d1a,0x10ba}, {0x10bb,0x10bb,0x2d1b,0x10bb},
{0x10bc,0x10bc,0x2d1c,0x10bc}, {0x10bd,0x10bd,0x2d1d,0x10bd}, {0x10be,0x10be,0x2d1e,0x10be}, {0x10bf,0x10bf,0x2d1f,0x10bf}, {0x10c0,0x10c0,0x2d20,0x10c0}, {0x10c1,0x10c1,0x2d21,0x10c1},
{0x10c2,0x10c2,0x2d22,0x10c2}, {0x10c3,0x10c3,0x2d23,0x10c3}, {0x10c4,0x10c4,0x2d24,0x10c4}, {0x10c5,0x10c5,0x2d25,0x10c5}, {0x10c7,0x10c7,0x2d27,0x10c7}, {0x10cd,0x10cd,0x2d2d,0x10cd},
{0x10d0,0x1c90,0x10d0,0x10d0}, {0x10d1,0x1c91,0x10d1,0x10d1}, {0x10d2,0x1c92,0x10d2,0x10d2}, {0x10d3,0x1c93,0x10d3,0x10d3}, {0x10d4,0x1c94,0x10d4,0x10d4}, {0x10d5,0x1c95,0x10d5,0x10d5},
{0x10d6,0x1c96,0x10d6,0x10d6}, {0x10d7,0x1c97,0x10d7,0x10d7}, {0x10d8,0x1c98,0x10d8,0x10d8}, {0x10d9,0x1c99,0x10d9,0x10d9}, {0x10da,0x1c9a,0x10da,0x10da}, {0x10db,0x1c9b,0x10db,0x10db},
{0x10dc,0x1c9c,0x10dc,0x10dc}, {0x10dd,0x1c9d,0x10dd,0x10dd}, {0x10de,0x1c9e,0x10de,0x10de}, {0x10df,0x1c9f,0x10df,0x10df}, {0x10e0,0x1ca0,0x10e0,0x10e0}, {0x10e1,0x1ca1,0x10e1,0x10e1},
{0x10e2,0x1ca2,0x10e2,0x10e2}, {0x10e3,0x1ca3,0x10e3,0x10e3}, {0x10e4,0x1ca4,0x10e4,0x10e4}, {0x10e5,0x1ca5,0x10e5,0x10e5}, {0x10e6,0x1ca6,0x10e6,0x10e6}, {0x10e7,0x1ca7,0x10e7,0x10e7},
{0x10e8,0x1ca8,0x10e8,0x10e8}, {0x10e9,0x1ca9,0x10e9,0x10e9}, {0x10ea,0x1caa,0x10ea,0x10ea}, {0x10eb,0x1cab,0x10eb,0x10eb}, {0x10ec,0x1cac,0x10ec,0x10ec}, {0x10ed,0x1cad,0x10ed,0x10ed},
{0x10ee,0x1cae,0x10ee,0x10ee}, {0x10ef,0x1caf,0x10ef,0x10ef}, {0x10f0,0x1cb0,0x10f0,0x10f0}, {0x10f1,0x1cb1,0x10f1,0x10f1}, {0x10f2,0x1cb2,0x10f2,0x10f2}, {0x10f3,0x1cb3,0x10f3,0x10f3},
{0x10f4,0x1cb4,0x10f4,0x10f4}, {0x10f5,0x1cb5,0x10f5,0x10f5}, {0x10f6,0x1cb6,0x10f6,0x10f6}, {0x10f7,0x1cb7,0x10f7,0x10f7}, {0x10f8,0x1cb8,0x10f8,0x10f8}, {0x10f9,0x1cb9,0x10f9,0x10f9},
{0x10fa,0x1cba,0x10fa,0x10fa}, {0x10fd,0x1cbd,0x10fd,0x10fd}, {0x10fe,0x1cbe,0x10fe,0x10fe}, {0x10ff,0x1cbf,0x10ff,0x10ff}, {0x13a0,0x13a0,0xab70,0x13a0}, {0x13a1,0x13a1,0xab71,0x13a1},
{0x13a2,0x13a2,0xab72,0x13a2}, {0x13a3,0x13a3,0xab73,0x13a3}, {0x13a4,0x13a4,0xab74,0x13a4}, {0x13a5,0x13a5,0xab75,0x13a5}, {0x13a6,0x13a6,0xab76,0x13a6}, {0x13a7,0x13a7,0xab77,0x13a7},
{0x13a8,0x13a8,0xab78,0x13a8}, {0x13a9,0x13a9,0xab79,0x13a9}, {0x13aa,0x13aa,0xab7a,0x13aa}, {0x13ab,0x13ab,0xab7b,0x13ab}, {0x13ac,0x13ac,0xab7c,0x13ac}, {0x13ad,0x13ad,0xab7d,0x13ad},
{0x13ae,0x13ae,0xab7e,0x13ae}, {0x13af,0x13af,0xab7f,0x13af}, {0x13b0,0x13b0,0xab80,0x13b0}, {0x13b1,0x13b1,0xab81,0x13b1}, {0x13b2,0x13b2,0xab82,0x13b2}, {0x13b3,0x13b3,0xab83,0x13b3},
{0x13b4,0x13b4,0xab84,0x13b4}, {0x13b5,0x13b5,0xab85,0x13b5}, {0x13b6,0x13b6,0xab86,0x13b6}, {0x13b7,0x13b7,0xab87,0x13b7}, {0x13b8,0x13b8,0xab88,0x13b8}, {0x13b9,0x13b9,0xab89,0x13b9},
{0x13ba,0x13ba,0xab8a,0x13ba}, {0x13bb,0x13bb,0xab8b,0x13bb}, {0x13bc,0x13bc,0xab8c,0x13bc}, {0x13bd,0x13bd,0xab8d,0x13bd}, {0x13be,0x13be,0xab8e,0x13be}, {0x13bf,0x13bf,0xab8f,0x13bf},
{0x13c0,0x13c0,0xab90,0x13c0}, {0x13c1,0x13c1,0xab91,0x13c1}, {0x13c2,0x13c2,0xab92,0x13c2}, {0x13c3,0x13c3,0xab93,0x13c3}, {0x13c4,0x13c4,0xab94,0x13c4}, {0x13c5,0x13c5,0xab95,0x13c5},
{0x13c6,0x13c6,0xab96,0x13c6}, {0x13c7,0x13c7,0xab97,0x13c7}, {0x13c8,0x13c8,0xab98,0x13c8}, {0x13c9,0x13c9,0xab99,0x13c9}, {0x13ca,0x13ca,0xab9a,0x13ca}, {0x13cb,0x13cb,0xab9b,0x13cb},
{0x13cc,0x13cc,0xab9c,0x13cc}, {0x13cd,0x13cd,0xab9d,0x13cd}, {0x13ce,0x13ce,0xab9e,0x13ce}, {0x13cf,0x13cf,0xab9f,0x13cf}, {0x13d0,0x13d0,0xaba0,0x13d0}, {0x13d1,0x13d1,0xaba1,0x13d1},
{0x13d2,0x13d2,0xaba2,0x13d2}, {0x13d3,0x13d3,0xaba3,0x13d3}, {0x13d4,0x13d4,0xaba4,0x13d4}, {0x13d5,0x13d5,0xaba5,0x13d5}, {0x13d6,0x13d6,0xaba6,0x13d6}, {0x13d7,0x13d7,0xaba7,0x13d7},
{0x13d8,0x13d8,0xaba8,0x13d8}, {0x13d9,0x13d9,0xaba9,0x13d9}, {0x13da,0x13da,0xabaa,0x13da}, {0x13db,0x13db,0xabab,0x13db}, {0x13dc,0x13dc,0xabac,0x13dc}, {0x13dd,0x13dd,0xabad,0x13dd},
{0x13de,0x13de,0xabae,0x13de}, {0x13df,0x13df,0xabaf,0x13df}, {0x13e0,0x13e0,0xabb0,0x13e0}, {0x13e1,0x13e1,0xabb1,0x13e1}, {0x13e2,0x13e2,0xabb2,0x13e2}, {0x13e3,0x13e3,0xabb3,0x13e3},
{0x13e4,0x13e4,0xabb4,0x13e4}, {0x13e5,0x13e5,0xabb5,0x13e5}, {0x13e6,0x13e6,0xabb6,0x13e6}, {0x13e7,0x13e7,0xabb7,0x13e7}, {0x13e8,0x13e8,0xabb8,0x13e8}, {0x13e9,0x13e9,0xabb9,0x13e9},
{0x13ea,0x13ea,0xabba,0x13ea}, {0x13eb,0x13eb,0xabbb,0x13eb}, {0x13ec,0x13ec,0xabbc,0x13ec}, {0x13ed,0x13ed,0xabbd,0x13ed}, {0x13ee,0x13ee,0xabbe,0x13ee}, {0x13ef,0x13ef,0xabbf,0x13ef},
{0x13f0,0x13f0,0x13f8,0x13f0}, {0x13f1,0x13f1,0x13f9,0x13f1}, {0x13f2,0x13f2,0x13fa,0x13f2}, {0x13f3,0x13f3,0x13fb,0x13f3}, {0x13f4,0x13f4,0x13fc,0x13f4}, {0x13f5,0x13f5,0x13fd,0x13f5},
{0x13f8,0x13f0,0x13f8,0x13f0}, {0x13f9,0x13f1,0x13f9,0x13f1}, {0x13fa,0x13f2,0x13fa,0x13f2}, {0x13fb,0x13f3,0x13fb,0x13f3}, {0x13fc,0x13f4,0x13fc,0x13f4}, {0x13fd,0x13f5,0x13fd,0x13f5},
{0x1c80,0x412,0x1c80,0x412}, {0x1c81,0x414,0x1c81,0x414}, {0x1c82,0x41e,0x1c82,0x41e}, {0x1c83,0x421,0x1c83,0x421}, {0x1c84,0x422,0x1c84,0x422}, {0x1c85,0x422,0x1c85,0x422},
{0x1c86,0x42a,0x1c86,0x42a}, {0x1c87,0x462,0x1c87,0x462}, {0x1c88,0xa64a,0x1c88,0xa64a}, {0x1c89,0x1c89,0x1c8a,0x1c89}, {0x1c8a,0x1c89,0x1c8a,0x1c89}, {0x1c90,0x1c90,0x10d0,0x1c90},
{0x1c91,0x1c91,0x10d1,0x1c91}, {0x1c92,0x1c92,0x10d2,0x1c92}, {0x1c93,0x1c93,0x10d3,0x1c93}, {0x1c94,0x1c94,0x10d4,0x1c94}, {0x1c95,0x1c95,0x10d5,0x1c95}, {0x1c96,0x1c96,0x10d6,0x1c96},
{0x1c97,0x1c97,0x10d7,0x1c97}, {0x1c98,0x1c98,0x10d8,0x1c98}, {0x1c99,0x1c99,0x10d9,0x1c99}, {0x1c9a,0x1c9a,0x10da,0x1c9a}, {0x1c9b,0x1c9b,0x10db,0x1c9b}, {0x1c9c,0x1c9c,0x10dc,0x1c9c},
{0x1c9d,0x1c9d,0x10dd,0x1c9d}, {0x1c9e,0x1c9e,0x10de,0x1c9e}, {0x1c9f,0x1c9f,0x10df,0x1c9f}, {0x1ca0,0x1ca0,0x10e0,0x1ca0}, {0x1ca1,0x1ca1,0x10e1,0x1ca1}, {0x1ca2,0x1ca2,0x10e2,0x1ca2},
{0x1ca3,0x1ca3,0x10e3,0x1ca3}, {0x1ca4,0x1ca4,0x10e4,0x1ca4}, {0x1ca5,0x1ca5,0x10e5,0x1ca5}, {0x1ca6,0x1ca6,0x10e6,0x1ca6}, {0x1ca7,0x1ca7,0x10e7,0x1ca7}, {0x1ca8,0x1ca8,0x10e8,0x1ca8},
{0x1ca9,0x1ca9,0x10e9,0x1ca9}, {0x1caa,0x1caa,0x10ea,0x1caa}, {0x1cab,0x1cab,0x10eb,0x1cab}, {0x1cac,0x1cac,0x10ec,0x1cac}, {0x1cad,0x1cad,0x10ed,0x1cad}, {0x1cae,0x1cae,0x10ee,0x1cae},
{0x1caf,0x1caf,0x10ef,0x1caf}, {0x1cb0,0x1cb0,0x10f0,0x1cb0}, {0x1cb1,0x1cb1,0x10f1,0x1cb1}, {0x1cb2,0x1cb2,0x10f2,0x1cb2}, {0x1cb3,0x1cb3,0x10f3,0x1cb3}, {0x1cb4,0x1cb4,0x10f4,0x1cb4},
{0x1cb5,0x1cb5,0x10f5,0x1cb5}, {0x1cb6,0x1cb6,0x10f6,0x1cb6}, {0x1cb7,0x1cb7,0x10f7,0x1cb7}, {0x1cb8,0x1cb8,0x10f8,0x1cb8}, {0x1cb9,0x1cb9,0x10f9,0x1cb9}, {0x1cba,0x1cba,0x10fa,0x1cba},
{0x1cbd,0x1cbd,0x10fd,0x1cbd}, {0x1cbe,0x1cbe,0x10fe,0x1cbe}, {0x1cbf,0x1cbf,0x10ff,0x1cbf}, {0x1d79,0xa77d,0x1d79,0xa77d}, {0x1d7d,0x2c63,0x1d7d,0x2c63}, {0x1d8e,0xa7c6,0x1d8e,0xa7c6},
{0x1e00,0x1e00,0x1e01,0x1e00}, {0x1e01,0x1e00,0x1e01,0x1e00}, {0x1e02,0x1e02,0x1e03,0x1e02}, {0x1e03,0x1e02,0x1e03,0x1e02}, {0x1e04,0x1e04,0x1e05,0x1e04}, {0x1e05,0x1e04,0x1e05,0x1e04},
{0x1e06,0x1e06,0x1e07,0x1e06}, {0x1e07,0x1e06,0x1e07,0x1e06}, {0x1e08,0x1e08,0x1e09,0x1e08}, {0x1e09,0x1e08,0x1e09,0x1e08}, {0x1e0a,0x1e0a,0x1e0b,0x1e0a}, {0x1e0b,0x1e0a,0x1e0b,0x1e0a},
{0x1e0c,0x1e0c,0x1e0d,0x1e0c}, {0x1e0d,0x1e0c,0x1e0d,0x1e0c}, {0x1e0e,0x1e0e,0x1e0f,0x1e0e}, {0x1e0f,0x1e0e,0x1e0f,0x1e0e}, {0x1e10,0x1e10,0x1e11,0x1e10}, {0x1e11,0x1e10,0x1e11,0x1e10},
{0x1e12,0x1e12,0x1e13,0x1e12}, {0x1e13,0x1e12,0x1e13,0x1e12}, {0x1e14,0x1e14,0x1e15,0x1e14}, {0x1e15,0x1e14,0x1e15,0x1e14}, {0x1e16,0x1e16,0x1e17,0x1e16}, {0x1e17,0x1e16,0x1e17,0x1e16},
{0x1e18,0x1e18,0x1e19,0x1e18}, {0x1e19,0x1e18,0x1e19,0x1e18}, {0x1e1a,0x1e1a,0x1e1b,0x1e1a}, {0x1e1b,0x1e1a,0x1e1b,0x1e1a}, {0x1e1c,0x1e1c,0x1e1d,0x1e1c}, {0x1e1d,0x1e1c,0x1e1d,0x1e1c},
{0x1e1e,0x1e1e,0x1e1f,0x1e1e}, {0x1e1f,0x1e1e,0x1e1f,0x1e1e}, {0x1e20,0x1e20,0x1e21,0x1e20}, {0x1e21,0x1e20,0x1e21,0x1e20}, {0x1e22,0x1e22,0x1e23,0x1e22}, {0x1e23,0x1e22,0x1e23,0x1e22},
{0x1e24,0x1e24,0x1e25,0x1e24}, {0x1e25,0x1e24,0x1e25,0x1e24}, {0x1e26,0x1e26,0x1e27,0x1e26}, {0x1e27,0x1e26,0x1e27,0x1e26}, {0x1e28,0x1e28,0x1e29,0x1e28}, {0x1e29,0x1e28,0x1e29,0x1e28},
{0x1e2a,0x1e2a,0x1e2b,0x1e2a}, {0x1e2b,0x1e2a,0x1e2b,0x1e2a}, {0x1e2c,0x1e2c,0x1e2d,0x1e2c}, {0x1e2d,0x1e2c,0x1e2d,0x1e2c}, {0x1e2e,0x1e2e,0x1e2f,0x1e2e}, {0x1e2f,0x1e2e,0x1e2f,0x1e2e},
{0x1e30,0x1e30,0x1e31,0x1e30}, {0x1e31,0x1e30,0x1e31,0x1e30}, {0x1e32,0x1e32,0x1e33,0x1e32}, {0x1e33,0x1e32,0x1e33,0x1e32}, {0x1e34,0x1e34,0x1e35,0x1e34}, {0x1e35,0x1e34,0x1e35,0x1e34},
{0x1e36,0x1e36,0x1e37,0x1e36}, {0x1e37,0x1e36,0x1e37,0x1e36}, {0x1e38,0x1e38,0x1e39,0x1e38}, {0x1e39,0x1e38,0x1e39,0x1e38}, {0x1e3a,0x1e3a,0x1e3b,0x1e3a}, {0x1e3b,0x1e3a,0x1e3b,0x1e3a},
{0x1e3c,0x1e3c,0x1e3d,0x1e3c}, {0x1e3d,0x1e3c,0x1e3d,0x1e3c}, {0x1e3e,0x1e3e,0x1e3f,0x1e3e}, {0x1e3f,0x1e3e,0x1e3f,0x1e3e}, {0x1e40,0x1e40,0x1e41,0x1e40}, {0x1e41,0x1e40,0x1e41,0x1e40},
{0x1e42,0x1e42,0x1e43,0x1e42}, {0x1e43,0x1e42,0x1e43,0x1e42}, {0x1e44,0x1e44,0x1e45,0x1e44}, {0x1e45,0x1e44,0x1e45,0x1e44}, {0x1e46,0x1e46,0x1e47,0x1e46}, {0x1e47,0x1e46,0x1e47,0x1e46},
{0x1e48,0x1e48,0x1e49,0x1e48}, {0x1e49,0x1e48,0x1e49,0x1e48}, {0x1e4a,0x1e4a,0x1e4b,0x1e4a}, {0x1e4b,0x1e4a,0x1e4b,0x1e4a}, {0x1e4c,0x1e4c,0x1e4d,0x1e4c}, {0x1e4d,0x1e4c,0x1e4d,0x1e4c},
{0x1e4e,0x1e4e,0x1e4f,0x1e4e}, {0x1e4f,0x1e4e,0x1e4f,0x1e4e}, {0x1e50,0x1e50,0x1e51,0x1e50}, {0x1e51,0x1e50,0x1e51,0x1e50}, {0x1e52,0x1e52,0x1e53,0x1e52}, {0x1e53,0x1e52,0x1e53,0x1e52},
{0x1e54,0x1e54,0x1e55,0x1e54}, {0x1e55,0x1e54,0x1e55,0x1e54}, {0x1e56,0x1e56,0x1e57,0x1e56}, {0x1e57,0x1e56,0x1e57,0x1e56}, {0x1e58,0x1e58,0x1e59,0x1e58}, {0x1e59,0x1e58,0x1e59,0x1e58},
{0x1e5a,0x1e5a,0x1e5b,0x1e5a}, {0x1e5b,0x1e5a,0x1e5b,0x1e5a}, {0x1e5c,0x1e5c,0x1e5d,0x1e5c}, {0x1e5d,0x1e5c,0x1e5d,0x1e5c}, {0x1e5e,0x1e5e,0x1e5f,0x1e5e}, {0x1e5f,0x1e5e,0x1e5f,0x1e5e},
{0x1e60,0x1e60,0x1e61,0x1e60}, {0x1e61,0x1e60,0x1e61,0x1e60}, {0x1e62,0x1e62,0x1e63,0x1e62}, {0x1e63,0x1e62,0x1e63,0x1e62}, {0x1e64,0x1e64,0x1e65,0x1e64}, {0x1e65,0x1e64,0x1e65,0x1e64},
{0x1e66,0x1e66,0x1e67,0x1e66}, {0x1e67,0x1e66,0x1e67,0x1e66}, {0x1e68,0x1e68,0x1e69,0x1e68}, {0x1e69,0x1e68,0x1e69,0x1e68}, {0x1e6a,0x1e6a,0x1e6b,0x1e6a}, {0x1e6b,0x1e6a,0x1e6b,0x1e6a},
{0x1e6c,0x1e6c,0x1e6d,0x1e6c}, {0x1e6d,0x1e6c,0x1e6d,0x1e6c}, {0x1e6e,0x1e6e,0x1e6f,0x1e6e}, {0x1e6f,0x1e6e,0x1e6f,0x1e6e}, {0x1e70,0x1e70,0x1e71,0x1e70}, {0x1e71,0x1e70,0x1e71,0x1e70},
{0x1e72,0x1e72,0x1e73,0x1e72}, {0x1e73,0x1e72,0x1e73,0x1e72}, {0x1e74,0x1e74,0x1e75,0x1e74}, {0x1e75,0x1e74,0x1e75,0x1e74}, {0x1e76,0x1e76,0x1e77,0x1e76}, {0x1e77,0x1e76,0x1e77,0x1e76},
{0x1e78,0x1e78,0x1e79,0x1e78}, {0x1e79,0x1e78,0x1e79,0x1e78}, {0x1e7a,0x1e7a,0x1e7b,0x1e7a}, {0x1e7b,0x1e7a,0x1e7b,0x1e7a}, {0x1e7c,0x1e7c,0x1e7d,0x1e7c}, {0x1e7d,0x1e7c,0x1e7d,0x1e7c},
{0x1e7e,0x1e7e,0x1e7f,0x1e7e}, {0x1e7f,0x1e7e,0x1e7f,0x1e7e}, {0x1e80,0x1e80,0x1e81,0x1e80}, {0x1e81,0x1e80,0x1e81,0x1e80}, {0x1e82,0x1e82,0x1e83,0x1e82}, {0x1e83,0x1e82,0x1e83,0x1e82},
{0x1e84,0x1e84,0x1e85,0x1e84}, {0x1e85,0x1e84,0x1e85,0x1e84}, {0x1e86,0x1e86,0x1e87,0x1e86}, {0x1e87,0x1e86,0x1e87,0x1e86}, {0x1e88,0x1e88,0x1e89,0x1e88}, {0x1e89,0x1e88,0x1e89,0x1e88},
{0x1e8a,0x1e8a,0x1e8b,0x1e8a}, {0x1e8b,0x1e8a,0x1e8b,0x1e8a}, {0x1e8c,0x1e8c,0x1e8d,0x1e8c}, {0x1e8d,0x1e8c,0x1e8d,0x1e8c}, {0x1e8e,0x1e8e,0x1e8f,0x1e8e}, {0x1e8f,0x1e8e,0x1e8f,0x1e8e},
{0x1e90,0x1e90,0x1e91,0x1e90}, {0x1e91,0x1e90,0x1e91,0x1e90}, {0x1e92,0x1e92,0x1e93,0x1e92}, {0x1e93,0x1e92,0x1e93,0x1e92}, {0x1e94,0x1e94,0x1e95,0x1e94}, {0x1e95,0x1e94,0x1e95,0x1e94},
{0x1e9b,0x1e60,0x1e9b,0x1e60}, {0x1e9e,0x1e9e,0xdf,0x1e9e}, {0x1ea0,0x1ea0,0x1ea1,0x1ea0}, {0x1ea1,0x1ea0,0x1ea1,0x1ea0}, {0x1ea2,0x1ea2,0x1ea3,0x1ea2}, {0x1ea3,0x1ea2,0x1ea3,0x1ea2},
{0x1ea4,0x1ea4,0x1ea5,0x1ea4}, {0x1ea5,0x1ea4,0x1ea5,0x1ea4}, {0x1ea6,0x1ea6,0x1ea7,0x1ea6}, {0x1ea7,0x1ea6,0x1ea7,0x1ea6}, {0x1ea8,0x1ea8,0x1ea9,0x1ea8}, {0x1ea9,0x1ea8,0x1ea9,0x1ea8},
{0x1eaa,0x1eaa,0x1eab,0x1eaa}, {0x1eab,0x1eaa,0x1eab,0x1eaa}, {0x1eac,0x1eac,0x1ead,0x1eac}, {0x1ead,0x1eac,0x1ead,0x1eac}, {0x1eae,0x1eae,0x1eaf,0x1eae}, {0x1eaf,0x1eae,0x1eaf,0x1eae},
{0x1eb0,0x1eb0,0x1eb1,0x1eb0}, {0x1eb1,0x1eb0,0x1eb1,0x1eb0}, {0x1eb2,0x1eb2,0x1eb3,0x1eb2}, {0x1eb3,0x1eb2,0x1eb3,0x1eb2}, {0x1eb4,0x1eb4,0x1eb5,0x1eb4}, {0x1eb5,0x1eb4,0x1eb5,0x1eb4},
{0x1eb6,0x1eb6,0x1eb7,0x1eb6}, {0x1eb7,0x1eb6,0x1eb7,0x1eb6}, {0x1eb8,0x1eb8,0x1eb9,0x1eb8}, {0x1eb9,0x1eb8,0x1eb9,0x1eb8}, {0x1eba,0x1eba,0x1ebb,0x1eba}, {0x1ebb,0x1eba,0x1ebb,0x1eba},
{0x1ebc,0x1ebc,0x1ebd,0x1ebc}, {0x1ebd,0x1ebc,0x1ebd,0x1ebc}, {0x1ebe,0x1ebe,0x1ebf,0x1ebe}, {0x1ebf,0x1ebe,0x1ebf,0x1ebe}, {0x1ec0,0x1ec0,0x1ec1,0x1ec0}, {0x1ec1,0x1ec0,0x1ec1,0x1ec0},
{0x1ec2,0x1ec2,0x1ec3,0x1ec2}, {0x1ec3,0x1ec2,0x1ec3,0x1ec2}, {0x1ec4,0x1ec4,0x1ec5,0x1ec4}, {0x1ec5,0x1ec4,0x1ec5,0x1ec4}, {0x1ec6,0x1ec6,0x1ec7,0x1ec6}, {0x1ec7,0x1ec6,0x1ec7,0x1ec6},
{0x1ec8,0x1ec8,0x1ec9,0x1ec8}, {0x1ec9,0x1ec8,0x1ec9,0x1ec8}, {0x1eca,0x1eca,0x1ecb,0x1eca}, {0x1ecb,0x1eca,0x1ecb,0x1eca}, {0x1ecc,0x1ecc,0x1ecd,0x1ecc}, {0x1ecd,0x1ecc,0x1ecd,0x1ecc},
{0x1ece,0x1ece,0x1ecf,0x1ece}, {0x1ecf,0x1ece,0x1ecf,0x1ece}, {0x1ed0,0x1ed0,0x1ed1,0x1ed0}, {0x1ed1,0x1ed0,0x1ed1,0x1ed0}, {0x1ed2,0x1ed2,0x1ed3,0x1ed2}, {0x1ed3,0x1ed2,0x1ed3,0x1ed2},
{0x1ed4,0x1ed4,0x1ed5,0x1ed4}, {0x1ed5,0x1ed4,0x1ed5,0x1ed4}, {0x1ed6,0x1ed6,0x1ed7,0x1ed6}, {0x1ed7,0x1ed6,0x1ed7,0x1ed6}, {0x1ed8,0x1ed8,0x1ed9,0x1ed8}, {0x1ed9,0x1ed8,0x1ed9,0x1ed8},
{0x1eda,0x1eda,0x1edb,0x1eda}, {0x1edb,0x1eda,0x1edb,0x1eda}, {0x1edc,0x1edc,0x1edd,0x1edc}, {0x1edd,0x1edc,0x1edd,0x1edc}, {0x1ede,0x1ede,0x1edf,0x1ede}, {0x1edf,0x1ede,0x1edf,0x1ede},
{0x1ee0,0x1ee0,0x1ee1,0x1ee0}, {0x1ee1,0x1ee0,0x1ee1,0x1ee0}, {0x1ee2,0x1ee2,0x1ee3,0x1ee2}, {0x1ee3,0x1ee2,0x1ee3,0x1ee2}, {0x1ee4,0x1ee4,0x1ee5,0x1ee4}, {0x1ee5,0x1ee4,0x1ee5,0x1ee4},
{0x1ee6,0x1ee6,0x1ee7,0x1ee6}, {0x1ee7,0x1ee6,0x1ee7,0x1ee6}, {0x1ee8,0x1ee8,0x1ee9,0x1ee8}, {0x1ee9,0x1ee8,0x1ee9,0x1ee8}, {0x1eea,0x1eea,0x1eeb,0x1eea}, {0x1eeb,0x1eea,0x1eeb,0x1eea},
{0x1eec,0x1eec,0x1eed,0x1eec}, {0x1eed,0x1eec,0x1eed,0x1eec}, {0x1eee,0x1eee,0x1eef,0x1eee}, {0x1eef,0x1eee,0x1eef,0x1eee}, {0x1ef0,0x1ef0,0x1ef1,0x1ef0}, {0x1ef1,0x1ef0,0x1ef1,0x1ef0},
{0x1ef2,0x1ef2,0x1ef3,0x1ef2}, {0x1ef3,0x1ef2,0x1ef3,0x1ef2}, {0x1ef4,0x1ef4,0x1ef5,0x1ef4}, {0x1ef5,0x1ef4,0x1ef5,0x1ef4}, {0x1ef6,0x1ef6,0x1ef7,0x1ef6}, {0x1ef7,0x1ef6,0x1ef7,0x1ef6},
{0x1ef8,0x1ef8,0x1ef9,0x1ef8}, {0x1ef9,0x1ef8,0x1ef9,0x1ef8}, {0x1efa,0x1efa,0x1efb,0x1efa}, {0x1efb,0x1efa,0x1efb,0x1efa}, {0x1efc,0x1efc,0x1efd,0x1efc}, {0x1efd,0x1efc,0x1efd,0x1efc},
{0x1efe,0x1efe,0x1eff,0x1efe}, {0x1eff,0x1efe,0x1eff,0x1efe}, {0x1f00,0x1f08,0x1f00,0x1f08}, {0x1f01,0x1f09,0x1f01,0x1f09}, {0x1f02,0x1f0a,0x1f02,0x1f0a}, {0x1f03,0x1f0b,0x1f03,0x1f0b},
{0x1f04,0x1f0c,0x1f04,0x1f0c}, {0x1f05,0x1f0d,0x1f05,0x1f0d}, {0x1f06,0x1f0e,0x1f06,0x1f0e}, {0x1f07,0x1f0f,0x1f07,0x1f0f}, {0x1f08,0x1f08,0x1f00,0x1f08}, {0x1f09,0x1f09,0x1f01,0x1f09},
{0x1f0a,0x1f0a,0x1f02,0x1f0a}, {0x1f0b,0x1f0b,0x1f03,0x1f0b}, {0x1f0c,0x1f0c,0x1f04,0x1f0c}, {0x1f0d,0x1f0d,0x1f05,0x1f0d}, {0x1f0e,0x1f0e,0x1f06,0x1f0e}, {0x1f0f,0x1f0f,0x1f07,0x1f0f},
{0x1f10,0x1f18,0x1f10,0x1f18}, {0x1f11,0x1f19,0x1f11,0x1f19}, {0x1f12,0x1f1a,0x1f12,0x1f1a}, {0x1f13,0x1f1b,0x1f13,0x1f1b}, {0x1f14,0x1f1c,0x1f14,0x1f1c}, {0x1f15,0x1f1d,0x1f15,0x1f1d},
{0x1f18,0x1f18,0x1f10,0x1f18}, {0x1f19,0x1f19,0x1f11,0x1f19}, {0x1f1a,0x1f1a,0x1f12,0x1f1a}, {0x1f1b,0x1f1b,0x1f13,0x1f1b}, {0x1f1c,0x1f1c,0x1f14,0x1f1c}, {0x1f1d,0x1f1d,0x1f15,0x1f1d},
{0x1f20,0x1f28,0x1f20,0x1f28}, {0x1f21,0x1f29,0x1f21,0x1f29}, {0x1f22,0x1f2a,0x1f22,0x1f2a}, {0x1f23,0x1f2b,0x1f23,0x1f2b}, {0x1f24,0x1f2c,0x1f24,0x1f2c}, {0x1f25,0x1f2d,0x1f25,0x1f2d},
{0x1f26,0x1f2e,0x1f26,0x1f2e}, {0x1f27,0x1f2f,0x1f27,0x1f2f}, {0x1f28,0x1f28,0x1f20,0x1f28}, {0x1f29,0x1f29,0x1f21,0x1f29}, {0x1f2a,0x1f2a,0x1f22,0x1f2a}, {0x1f2b,0x1f2b,0x1f23,0x1f2b},
{0x1f2c,0x1f2c,0x1f24,0x1f2c}, {0x1f2d,0x1f2d,0x1f25,0x1f2d}, {0x1f2e,0x1f2e,0x1f26,0x1f2e}, {0x1f2f,0x1f2f,0x1f27,0x1f2f}, {0x1f30,0x1f38,0x1f30,0x1f38}, {0x1f31,0x1f39,0x1f31,0x1f39},
{0x1f32,0x1f3a,0x1f32,0x1f3a}, {0x1f33,0x1f3b,0x1f33,0x1f3b}, {0x1f34,0x1f3c,0x1f34,0x1f3c}, {0x1f35,0x1f3d,0x1f35,0x1f3d}, {0x1f36,0x1f3e,0x1f36,0x1f3e}, {0x1f37,0x1f3f,0x1f37,0x1f3f},
{0x1f38,0x1f38,0x1f30,0x1f38}, {0x1f39,0x1f39,0x1f31,0x1f39}, {0x1f3a,0x1f3a,0x1f32,0x1f3a}, {0x1f3b,0x1f3b,0x1f33,0x1f3b}, {0x1f3c,0x1f3c,0x1f34,0x1f3c}, {0x1f3d,0x1f3d,0x1f35,0x1f3d},
{0x1f3e,0x1f3e,0x1f36,0x1f3e}, {0x1f3f,0x1f3f,0x1f37,0x1f3f}, {0x1f40,0x1f48,0x1f40,0x1f48}, {0x1f41,0x1f49,0x1f41,0x1f49}, {0x1f42,0x1f4a,0x1f42,0x1f4a}, {0x1f43,0x1f4b,0x1f43,0x1f4b},
{0x1f44,0x1f4c,0x1f44,0x1f4c}, {0x1f45,0x1f4d,0x1f45,0x1f4d}, {0x1f48,0x1f48,0x1f40,0x1f48}, {0x1f49,0x1f49,0x1f41,0x1f49}, {0x1f4a,0x1f4a,0x1f42,0x1f4a}, {0x1f4b,0x1f4b,0x1f43,0x1f4b},
{0x1f4c,0x1f4c,0x1f44,0x1f4c}, {0x1f4d,0x1f4d,0x1f45,0x1f4d}, {0x1f51,0x1f59,0x1f51,0x1f59}, {0x1f53,0x1f5b,0x1f53,0x1f5b}, {0x1f55,0x1f5d,0x1f55,0x1f5d}, {0x1f57,0x1f5f,0x1f57,0x1f5f},
{0x1f59,0x1f59,0x1f51,0x1f59}, {0x1f5b,0x1f5b,0x1f53,0x1f5b}, {0x1f5d,0x1f5d,0x1f55,0x1f5d}, {0x1f5f,0x1f5f,0x1f57,0x1f5f}, {0x1f60,0x1f68,0x1f60,0x1f68}, {0x1f61,0x1f69,0x1f61,0x1f69},
{0x1f62,0x1f6a,0x1f62,0x1f6a}, {0x1f63,0x1f6b,0x1f63,0x1f6b}, {0x1f64,0x1f6c,0x1f64,0x1f6c}, {0x1f65,0x1f6d,0x1f65,0x1f6d}, {0x1f66,0x1f6e,0x1f66,0x1f6e}, {0x1f67,0x1f6f,0x1f67,0x1f6f},
{0x1f68,0x1f68,0x1f60,0x1f68}, {0x1f69,0x1f69,0x1f61,0x1f69}, {0x1f6a,0x1f6a,0x1f62,0x1f6a}, {0x1f6b,0x1f6b,0x1f63,0x1f6b}, {0x1f6c,0x1f6c,0x1f64,0x1f6c}, {0x1f6d,0x1f6d,0x1f65,0x1f6d},
{0x1f6e,0x1f6e,0x1f66,0x1f6e}, {0x1f6f,0x1f6f,0x1f67,0x1f6f}, {0x1f70,0x1fba,0x1f70,0x1fba}, {0x1f71,0x1fbb,0x1f71,0x1fbb}, {0x1f72,0x1fc8,0x1f72,0x1fc8}, {0x1f73,0x1fc9,0x1f73,0x1fc9},
{0x1f74,0x1fca,0x1f74,0x1fca}, {0x1f75,0x1fcb,0x1f75,0x1fcb}, {0x1f76,0x1fda,0x1f76,0x1fda}, {0x1f77,0x1fdb,0x1f77,0x1fdb}, {0x1f78,0x1ff8,0x1f78,0x1ff8}, {0x1f79,0x1ff9,0x1f79,0x1ff9},
{0x1f7a,0x1fea,0x1f7a,0x1fea}, {0x1f7b,0x1feb,0x1f7b,0x1feb}, {0x1f7c,0x1ffa,0x1f7c,0x1ffa}, {0x1f7d,0x1ffb,0x1f7d,0x1ffb}, {0x1f80,0x1f88,0x1f80,0x1f88}, {0x1f81,0x1f89,0x1f81,0x1f89},
{0x1f82,0x1f8a,0x1f82,0x1f8a}, {0x1f83,0x1f8b,0x1f83,0x1f8b}, {0x1f84,0x1f8c,0x1f84,0x1f8c}, {0x1f85,0x1f8d,0x1f85,0x1f8d}, {0x1f86,0x1f8e,0x1f86,0x1f8e}, {0x1f87,0x1f8f,0x1f87,0x1f8f},
{0x1f88,0x1f88,0x1f80,0x1f88}, {0x1f89,0x1f89,0x1f81,0x1f89}, {0x1f8a,0x1f8a,0x1f82,0x1f8a}, {0x1f8b,0x1f8b,0x1f83,0x1f8b}, {0x1f8c,0x1f8c,0x1f84,0x1f8c}, {0x1f8d,0x1f8d,0x1f85,0x1f8d},
{0x1f8e,0x1f8e,0x1f86,0x1f8e}, {0x1f8f,0x1f8f,0x1f87,0x1f8f}, {0x1f90,0x1f98,0x1f90,0x1f98}, {0x1f91,0x1f99,0x1f91,0x1f99}, {0x1f92,0x1f9a,0x1f92,0x1f9a}, {0x1f93,0x1f9b,0x1f93,0x1f9b},
{0x1f94,0x1f9c,0x1f94,0x1f9c}, {0x1f95,0x1f9d,0x1f95,0x1f9d}, {0x1f96,0x1f9e,0x1f96,0x1f9e}, {0x1f97,0x1f9f,0x1f97,0x1f9f}, {0x1f98,0x1f98,0x1f90,0x1f98}, {0x1f99,0x1f99,0x1f91,0x1f99},
{0x1f9a,0x1f9a,0x1f92,0x1f9a}, {0x1f9b,0x1f9b,0x1f93,0x1f9b}, {0x1f9c,0x1f9c,0x1f94,0x1f9c}, {0x1f9d,0x1f9d,0x1f95,0x1f9d}, {0x1f9e,0x1f9e,0x1f96,0x1f9e}, {0x1f9f,0x1f9f,0x1f97,0x1f9f},
{0x1fa0,0x1fa8,0x1fa0,0x1fa8}, {0x1fa1,0x1fa9,0x1fa1,0x1fa9}, {0x1fa2,0x1faa,0x1fa2,0x1faa}, {0x1fa3,0x1fab,0x1fa3,0x1fab}, {0x1fa4,0x1fac,0x1fa4,0x1fac}, {0x1fa5,0x1fad,0x1fa5,0x1fad},
{0x1fa6,0x1fae,0x1fa6,0x1fae}, {0x1fa7,0x1faf,0x1fa7,0x1faf}, {0x1fa8,0x1fa8,0x1fa0,0x1fa8}, {0x1fa9,0x1fa9,0x1fa1,0x1fa9}, {0x1faa,0x1faa,0x1fa2,0x1faa}, {0x1fab,0x1fab,0x1fa3,0x1fab},
{0x1fac,0x1fac,0x1fa4,0x1fac}, {0x1fad,0x1fad,0x1fa5,0x1fad}, {0x1fae,0x1fae,0x1fa6,0x1fae}, {0x1faf,0x1faf,0x1fa7,0x1faf}, {0x1fb0,0x1fb8,0x1fb0,0x1fb8}, {0x1fb1,0x1fb9,0x1fb1,0x1fb9},
{0x1fb3,0x1fbc,0x1fb3,0x1fbc}, {0x1fb8,0x1fb8,0x1fb0,0x1fb8}, {0x1fb9,0x1fb9,0x1fb1,0x1fb9}, {0x1fba,0x1fba,0x1f70,0x1fba}, {0x1fbb,0x1fbb,0x1f71,0x1fbb}, {0x1fbc,0x1fbc,0x1fb3,0x1fbc},
{0x1fbe,0x399,0x1fbe,0x399}, {0x1fc3,0x1fcc,0x1fc3,0x1fcc}, {0x1fc8,0x1fc8,0x1f72,0x1fc8}, {0x1fc9,0x1fc9,0x1f73,0x1fc9}, {0x1fca,0x1fca,0x1f74,0x1fca}, {0x1fcb,0x1fcb,0x1f75,0x1fcb},
{0x1fcc,0x1fcc,0x1fc3,0x1fcc}, {0x1fd0,0x1fd8,0x1fd0,0x1fd8}, {0x1fd1,0x1fd9,0x1fd1,0x1fd9}, {0x1fd8,0x1fd8,0x1fd0,0x1fd8}, {0x1fd9,0x1fd9,0x1fd1,0x1fd9}, {0x1fda,0x1fda,0x1f76,0x1fda},
{0x1fdb,0x1fdb,0x1f77,0x1fdb}, {0x1fe0,0x1fe8,0x1fe0,0x1fe8}, {0x1fe1,0x1fe9,0x1fe1,0x1fe9}, {0x1fe5,0x1fec,0x1fe5,0x1fec}, {0x1fe8,0x1fe8,0x1fe0,0x1fe8}, {0x1fe9,0x1fe9,0x1fe1,0x1fe9},
{0x1fea,0x1fea,0x1f7a,0x1fea}, {0x1feb,0x1feb,0x1f7b,0x1feb}, {0x1fec,0x1fec,0x1fe5,0x1fec}, {0x1ff3,0x1ffc,0x1ff3,0x1ffc}, {0x1ff8,0x1ff8,0x1f78,0x1ff8}, {0x1ff9,0x1ff9,0x1f79,0x1ff9},
{0x1ffa,0x1ffa,0x1f7c,0x1ffa}, {0x1ffb,0x1ffb,0x1f7d,0x1ffb}, {0x1ffc,0x1ffc,0x1ff3,0x1ffc}, {0x2126,0x2126,0x3c9,0x2126}, {0x212a,0x212a,0x6b,0x212a}, {0x212b,0x212b,0xe5,0x212b},
{0x2132,0x2132,0x214e,0x2132}, {0x214e,0x2132,0x214e,0x2132}, {0x2160,0x2160,0x2170,0x2160}, {0x2161,0x2161,0x2171,0x2161}, {0x2162,0x2162,0x2172,0x2162}, {0x2163,0x2163,0x2173,0x2163},
{0x2164,0x2164,0x2174,0x2164}, {0x2165,0x2165,0x2175,0x2165}, {0x2166,0x2166,0x2176,0x2166}, {0x2167,0x2167,0x2177,0x2167}, {0x2168,0x2168,0x2178,0x2168}, {0x2169,0x2169,0x2179,0x2169},
{0x216a,0x216a,0x217a,0x216a}, {0x216b,0x216b,0x217b,0x216b}, {0x216c,0x216c,0x217c,0x216c}, {0x216d,0x216d,0x217d,0x216d}, {0x216e,0x216e,0x217e,0x216e}, {0x216f,0x216f,0x217f,0x216f},
{0x2170,0x2160,0x2170,0x2160}, {0x2171,0x2161,0x2171,0x2161}, {0x2172,0x2162,0x2172,0x2162}, {0x2173,0x2163,0x2173,0x2163}, {0x2174,0x2164,0x2174,0x2164}, {0x2175,0x2165,0x2175,0x2165},
{0x2176,0x2166,0x2176,0x2166}, {0x2177,0x2167,0x2177,0x2167}, {0x2178,0x2168,0x2178,0x2168}, {0x2179,0x2169,0x2179,0x2169}, {0x217a,0x216a,0x217a,0x216a}, {0x217b,0x216b,0x217b,0x216b},
{0x217c,0x216c,0x217c,0x216c}, {0x217d,0x216d,0x217d,0x216d}, {0x217e,0x216e,0x217e,0x216e}, {0x217f,0x216f,0x217f,0x216f}, {0x2183,0x2183,0x2184,0x2183}, {0x2184,0x2183,0x2184,0x2183},
{0x24b6,0x24b6,0x24d0,0x24b6}, {0x24b7,0x24b7,0x24d1,0x24b7}, {0x24b8,0x24b8,0x24d2,0x24b8}, {0x24b9,0x24b9,0x24d3,0x24b9}, {0x24ba,0x24ba,0x24d4,0x24ba}, {0x24bb,0x24bb,0x24d5,0x24bb},
{0x24bc,0x24bc,0x24d6,0x24bc}, {0x24bd,0x24bd,0x24d7,0x24bd}, {0x24be,0x24be,0x24d8,0x24be}, {0x24bf,0x24bf,0x24d9,0x24bf}, {0x24c0,0x24c0,0x24da,0x24c0}, {0x24c1,0x24c1,0x24db,0x24c1},
{0x24c2,0x24c2,0x24dc,0x24c2}, {0x24c3,0x24c3,0x24dd,0x24c3}, {0x24c4,0x24c4,0x24de,0x24c4}, {0x24c5,0x24c5,0x24df,0x24c5}, {0x24c6,0x24c6,0x24e0,0x24c6}, {0x24c7,0x24c7,0x24e1,0x24c7},
{0x24c8,0x24c8,0x24e2,0x24c8}, {0x24c9,0x24c9,0x24e3,0x24c9}, {0x24ca,0x24ca,0x24e4,0x24ca}, {0x24cb,0x24cb,0x24e5,0x24cb}, {0x24cc,0x24cc,0x24e6,0x24cc}, {0x24cd,0x24cd,0x24e7,0x24cd},
{0x24ce,0x24ce,0x24e8,0x24ce}, {0x24cf,0x24cf,0x24e9,0x24cf}, {0x24d0,0x24b6,0x24d0,0x24b6}, {0x24d1,0x24b7,0x24d1,0x24b7}, {0x24d2,0x24b8,0x24d2,0x24b8}, {0x24d3,0x24b9,0x24d3,0x24b9},
{0x24d4,0x24ba,0x24d4,0x24ba}, {0x24d5,0x24bb,0x24d5,0x24bb}, {0x24d6,0x24bc,0x24d6,0x24bc}, {0x24d7,0x24bd,0x24d7,0x24bd}, {0x24d8,0x24be,0x24d8,0x24be}, {0x24d9,0x24bf,0x24d9,0x24bf},
{0x24da,0x24c0,0x24da,0x24c0}, {0x24db,0x24c1,0x24db,0x24c1}, {0x24dc,0x24c2,0x24dc,0x24c2}, {0x24dd,0x24c3,0x24dd,0x24c3}, {0x24de,0x24c4,0x24de,0x24c4}, {0x24df,0x24c5,0x24df,0x24c5},
{0x24e0,0x24c6,0x24e0,0x24c6}, {0x24e1,0x24c7,0x24e1,0x24c7}, {0x24e2,0x24c8,0x24e2,0x24c8}, {0x24e3,0x24c9,0x24e3,0x24c9}, {0x24e4,0x24ca,0x24e4,0x24ca}, {0x24e5,0x24cb,0x24e5,0x24cb},
{0x24e6,0x24cc,0x24e6,0x24cc}, {0x24e7,0x24cd,0x24e7,0x24cd}, {0x24e8,0x24ce,0x24e8,0x24ce}, {0x24e9,0x24cf,0x24e9,0x24cf}, {0x2c00,0x2c00,0x2c30,0x2c00}, {0x2c01,0x2c01,0x2c31,0x2c01},
{0x2c02,0x2c02,0x2c32,0x2c02}, {0x2c03,0x2c03,0x2c33,0x2c03}, {0x2c04,0x2c04,0x2c34,0x2c04}, {0x2c05,0x2c05,0x2c35,0x2c05}, {0x2c06,0x2c06,0x2c36,0x2c06}, {0x2c07,0x2c07,0x2c37,0x2c07},
{0x2c08,0x2c08,0x2c38,0x2c08}, {0x2c09,0x2c09,0x2c39,0x2c09}, {0x2c0a,0x2c0a,0x2c3a,0x2c0a}, {0x2c0b,0x2c0b,0x2c3b,0x2c0b}, {0x2c0c,0x2c0c,0x2c3c,0x2c0c}, {0x2c0d,0x2c0d,0x2c3d,0x2c0d},
{0x2c0e,0x2c0e,0x2c3e,0x2c0e}, {0x2c0f,0x2c0f,0x2c3f,0x2c0f}, {0x2c10,0x2c10,0x2c40,0x2c10}, {0x2c11,0x2c11,0x2c41,0x2c11}, {0x2c12,0x2c12,0x2c42,0x2c12}, {0x2c13,0x2c13,0x2c43,0x2c13},
{0x2c14,0x2c14,0x2c44,0x2c14}, {0x2c15,0x2c15,0x2c45,0x2c15}, {0x2c16,0x2c16,0x2c46,0x2c16}, {0x2c17,0x2c17,0x2c47,0x2c17}, {0x2c18,0x2c18,0x2c48,0x2c18}, {0x2c19,0x2c19,0x2c49,0x2c19},
{0x2c1a,0x2c1a,0x2c4a,0x2c1a}, {0x2c1b,0x2c1b,0x2c4b,0x2c1b}, {0x2c1c,0x2c1c,0x2c4c,0x2c1c}, {0x2c1d,0x2c1d,0x2c4d,0x2c1d}, {0x2c1e,0x2c1e,0x2c4e,0x2c1e}, {0x2c1f,0x2c1f,0x2c4f,0x2c1f},
{0x2c20,0x2c20,0x2c50,0x2c20}, {0x2c21,0x2c21,0x2c51,0x2c21}, {0x2c22,0x2c22,0x2c52,0x2c22}, {0x2c23,0x2c23,0x2c53,0x2c23}, {0x2c24,0x2c24,0x2c54,0x2c24}, {0x2c25,0x2c25,0x2c55,0x2c25},
{0x2c26,0x2c26,0x2c56,0x2c26}, {0x2c27,0x2c27,0x2c57,0x2c27}, {0x2c28,0x2c28,0x2c58,0x2c28}, {0x2c29,0x2c29,0x2c59,0x2c29}, {0x2c2a,0x2c2a,0x2c5a,0x2c2a}, {0x2c2b,0x2c2b,0x2c5b,0x2c2b},
{0x2c2c,0x2c2c,0x2c5c,0x2c2c}, {0x2c2d,0x2c2d,0x2c5d,0x2c2d}, {0x2c2e,0x2c2e,0x2c5e,0x2c2e}, {0x2c2f,0x2c2f,0x2c5f,0x2c2f}, {0x2c30,0x2c00,0x2c30,0x2c00}, {0x2c31,0x2c01,0x2c31,0x2c01},
{0x2c32,0x2c02,0x2c32,0x2c02}, {0x2c33,0x2c03,0x2c33,0x2c03}, {0x2c34,0x2c04,0x2c34,0x2c04}, {0x2c35,0x2c05,0x2c35,0x2c05}, {0x2c36,0x2c06,0x2c36,0x2c06}, {0x2c37,0x2c07,0x2c37,0x2c07},
{0x2c38,0x2c08,0x2c38,0x2c08}, {0x2c39,0x2c09,0x2c39,0x2c09}, {0x2c3a,0x2c0a,0x2c3a,0x2c0a}, {0x2c3b,0x2c0b,0x2c3b,0x2c0b}, {0x2c3c,0x2c0c,0x2c3c,0x2c0c}, {0x2c3d,0x2c0d,0x2c3d,0x2c0d},
{0x2c3e,0x2c0e,0x2c3e,0x2c0e}, {0x2c3f,0x2c0f,0x2c3f,0x2c0f}, {0x2c40,0x2c10,0x2c40,0x2c10}, {0x2c41,0x2c11,0x2c41,0x2c11}, {0x2c42,0x2c12,0x2c42,0x2c12}, {0x2c43,0x2c13,0x2c43,0x2c13},
{0x2c44,0x2c14,0x2c44,0x2c14}, {0x2c45,0x2c15,0x2c45,0x2c15}, {0x2c46,0x2c16,0x2c46,0x2c16}, {0x2c47,0x2c17,0x2c47,0x2c17}, {0x2c48,0x2c18,0x2c48,0x2c18}, {0x2c49,0x2c19,0x2c49,0x2c19},
{0x2c4a,0x2c1a,0x2c4a,0x2c1a}, {0x2c4b,0x2c1b,0x2c4b,0x2c1b}, {0x2c4c,0x2c1c,0x2c4c,0x2c1c}, {0x2c4d,0x2c1d,0x2c4d,0x2c1d}, {0x2c4e,0x2c1e,0x2c4e,0x2c1e}, {0x2c4f,0x2c1f,0x2c4f,0x2c1f},
{0x2c50,0x2c20,0x2c50,0x2c20}, {0x2c51,0x2c21,0x2c51,0x2c21}, {0x2c52,0x2c22,0x2c52,0x2c22}, {0x2c53,0x2c23,0x2c53,0x2c23}, {0x2c54,0x2c24,0x2c54,0x2c24}, {0x2c55,0x2c25,0x2c55,0x2c25},
{0x2c56,0x2c26,0x2c56,0x2c26}, {0x2c57,0x2c27,0x2c57,0x2c27}, {0x2c58,0x2c28,0x2c58,0x2c28}, {0x2c59,0x2c29,0x2c59,0x2c29}, {0x2c5a,0x2c2a,0x2c5a,0x2c2a}, {0x2c5b,0x2c2b,0x2c5b,0x2c2b},
{0x2c5c,0x2c2c,0x2c5c,0x2c2c}, {0x2c5d,0x2c2d,0x2c5d,0x2c2d}, {0x2c5e,0x2c2e,0x2c5e,0x2c2e}, {0x2c5f,0x2c2f,0x2c5f,0x2c2f}, {0x2c60,0x2c60,0x2c61,0x2c60}, {0x2c61,0x2c60,0x2c61,0x2c60},
{0x2c62,0x2c62,0x26b,0x2c62}, {0x2c63,0x2c63,0x1d7d,0x2c63}, {0x2c64,0x2c64,0x27d,0x2c64}, {0x2c65,0x23a,0x2c65,0x23a}, {0x2c66,0x23e,0x2c66,0x23e}, {0x2c67,0x2c67,0x2c68,0x2c67},
{0x2c68,0x2c67,0x2c68,0x2c67}, {0x2c69,0x2c69,0x2c6a,0x2c69}, {0x2c6a,0x2c69,0x2c6a,0x2c69}, {0x2c6b,0x2c6b,0x2c6c,0x2c6b}, {0x2c6c,0x2c6b,0x2c6c,0x2c6b}, {0x2c6d,0x2c6d,0x251,0x2c6d},
{0x2c6e,0x2c6e,0x271,0x2c6e}, {0x2c6f,0x2c6f,0x250,0x2c6f}, {0x2c70,0x2c70,0x252,0x2c70}, {0x2c72,0x2c72,0x2c73,0x2c72}, {0x2c73,0x2c72,0x2c73,0x2c72}, {0x2c75,0x2c75,0x2c76,0x2c75},
{0x2c76,0x2c75,0x2c76,0x2c75}, {0x2c7e,0x2c7e,0x23f,0x2c7e}, {0x2c7f,0x2c7f,0x240,0x2c7f}, {0x2c80,0x2c80,0x2c81,0x2c80}, {0x2c81,0x2c80,0x2c81,0x2c80}, {0x2c82,0x2c82,0x2c83,0x2c82},
{0x2c83,0x2c82,0x2c83,0x2c82}, {0x2c84,0x2c84,0x2c85,0x2c84}, {0x2c85,0x2c84,0x2c85,0x2c84}, {0x2c86,0x2c86,0x2c87,0x2c86}, {0x2c87,0x2c86,0x2c87,0x2c86}, {0x2c88,0x2c88,0x2c89,0x2c88},
{0x2c89,0x2c88,0x2c89,0x2c88}, {0x2c8a,0x2c8a,0x2c8b,0x2c8a}, {0x2c8b,0x2c8a,0x2c8b,0x2c8a}, {0x2c8c,0x2c8c,0x2c8d,0x2c8c}, {0x2c8d,0x2c8c,0x2c8d,0x2c8c}, {0x2c8e,0x2c8e,0x2c8f,0x2c8e},
{0x2c8f,0x2c8e,0x2c8f,0x2c8e}, {0x2c90,0x2c90,0x2c91,0x2c90}, {0x2c91,0x2c90,0x2c91,0x2c90}, {0x2c92,0x2c92,0x2c93,0x2c92}, {0x2c93,0x2c92,0x2c93,0x2c92}, {0x2c94,0x2c94,0x2c95,0x2c94},
{0x2c95,0x2c94,0x2c95,0x2c94}, {0x2c96,0x2c96,0x2c97,0x2c96}, {0x2c97,0x2c96,0x2c97,0x2c96}, {0x2c98,0x2c98,0x2c99,0x2c98}, {0x2c99,0x2c98,0x2c99,0x2c98}, {0x2c9a,0x2c9a,0x2c9b,0x2c9a},
{0x2c9b,0x2c9a,0x2c9b,0x2c9a}, {0x2c9c,0x2c9c,0x2c9d,0x2c9c}, {0x2c9d,0x2c9c,0x2c9d,0x2c9c}, {0x2c9e,0x2c9e,0x2c9f,0x2c9e}, {0x2c9f,0x2c9e,0x2c9f,0x2c9e}, {0x2ca0,0x2ca0,0x2ca1,0x2ca0},
{0x2ca1,0x2ca0,0x2ca1,0x2ca0}, {0x2ca2,0x2ca2,0x2ca3,0x2ca2}, {0x2ca3,0x2ca2,0x2ca3,0x2ca2}, {0x2ca4,0x2ca4,0x2ca5,0x2ca4}, {0x2ca5,0x2ca4,0x2ca5,0x2ca4}, {0x2ca6,0x2ca6,0x2ca7,0x2ca6},
{0x2ca7,0x2ca6,0x2ca7,0x2ca6}, {0x2ca8,0x2ca8,0x2ca9,0x2ca8}, {0x2ca9,0x2ca8,0x2ca9,0x2ca8}, {0x2caa,0x2caa,0x2cab,0x2caa}, {0x2cab,0x2caa,0x2cab,0x2caa}, {0x2cac,0x2cac,0x2cad,0x2cac},
{0x2cad,0x2cac,0x2cad,0x2cac}, {0x2cae,0x2cae,0x2caf,0x2cae}, {0x2caf,0x2cae,0x2caf,0x2cae}, {0x2cb0,0x2cb0,0x2cb1,0x2cb0}, {0x2cb1,0x2cb0,0x2cb1,0x2cb0}, {0x2cb2,0x2cb2,0x2cb3,0x2cb2},
{0x2cb3,0x2cb2,0x2cb3,0x2cb2}, {0x2cb4,0x2cb4,0x2cb5,0x2cb4}, {0x2cb5,0x2cb4,0x2cb5,0x2cb4}, {0x2cb6,0x2cb6,0x2cb7,0x2cb6}, {0x2cb7,0x2cb6,0x2cb7,0x2cb6}, {0x2cb8,0x2cb8,0x2cb9,0x2cb8},
{0x2cb9,0x2cb8,0x2cb9,0x2cb8}, {0x2cba,0x2cba,0x2cbb,0x2cba}, {0x2cbb,0x2cba,0x2cbb,0x2cba}, {0x2cbc,0x2cbc,0x2cbd,0x2cbc}, {0x2cbd,0x2cbc,0x2cbd,0x2cbc}, {0x2cbe,0x2cbe,0x2cbf,0x2cbe},
{0x2cbf,0x2cbe,0x2cbf,0x2cbe}, {0x2cc0,0x2cc0,0x2cc1,0x2cc0}, {0x2cc1,0x2cc0,0x2cc1,0x2cc0}, {0x2cc2,0x2cc2,0x2cc3,0x2cc2}, {0x2cc3,0x2cc2,0x2cc3,0x2cc2}, {0x2cc4,0x2cc4,0x2cc5,0x2cc4},
{0x2cc5,0x2cc4,0x2cc5,0x2cc4}, {0x2cc6,0x2cc6,0x2cc7,0x2cc6}, {0x2cc7,0x2cc6,0x2cc7,0x2cc6}, {0x2cc8,0x2cc8,0x2cc9,0x2cc8}, {0x2cc9,0x2cc8,0x2cc9,0x2cc8}, {0x2cca,0x2cca,0x2ccb,0x2cca},
{0x2ccb,0x2cca,0x2ccb,0x2cca}, {0x2ccc,0x2ccc,0x2ccd,0x2ccc}, {0x2ccd,0x2ccc,0x2ccd,0x2ccc}, {0x2cce,0x2cce,0x2ccf,0x2cce}, {0x2ccf,0x2cce,0x2ccf,0x2cce}, {0x2cd0,0x2cd0,0x2cd1,0x2cd0},
{0x2cd1,0x2cd0,0x2cd1,0x2cd0}, {0x2cd2,0x2cd2,0x2cd3,0x2cd2}, {0x2cd3,0x2cd2,0x2cd3,0x2cd2}, {0x2cd4,0x2cd4,0x2cd5,0x2cd4}, {0x2cd5,0x2cd4,0x2cd5,0x2cd4}, {0x2cd6,0x2cd6,0x2cd7,0x2cd6},
{0x2cd7,0x2cd6,0x2cd7,0x2cd6}, {0x2cd8,0x2cd8,0x2cd9,0x2cd8}, {0x2cd9,0x2cd8,0x2cd9,0x2cd8}, {0x2cda,0x2cda,0x2cdb,0x2cda}, {0x2cdb,0x2cda,0x2cdb,0x2cda}, {0x2cdc,0x2cdc,0x2cdd,0x2cdc},
{0x2cdd,0x2cdc,0x2cdd,0x2cdc}, {0x2cde,0x2cde,0x2cdf,0x2cde}, {0x2cdf,0x2cde,0x2cdf,0x2cde}, {0x2ce0,0x2ce0,0x2ce1,0x2ce0}, {0x2ce1,0x2ce0,0x2ce1,0x2ce0}, {0x2ce2,0x2ce2,0x2ce3,0x2ce2},
{0x2ce3,0x2ce2,0x2ce3,0x2ce2}, {0x2ceb,0x2ceb,0x2cec,0x2ceb}, {0x2cec,0x2ceb,0x2cec,0x2ceb}, {0x2ced,0x2ced,0x2cee,0x2ced}, {0x2cee,0x2ced,0x2cee,0x2ced}, {0x2cf2,0x2cf2,0x2cf3,0x2cf2},
{0x2cf3,0x2cf2,0x2cf3,0x2cf2}, {0x2d00,0x10a0,0x2d00,0x10a0}, {0x2d01,0x10a1,0x2d01,0x10a1}, {0x2d02,0x10a2,0x2d02,0x10a2}, {0x2d03,0x10a3,0x2d03,0x10a3}, {0x2d04,0x10a4,0x2d04,0x10a4},
{0x2d05,0x10a5,0x2d05,0x10a5}, {0x2d06,0x10a6,0x2d06,0x10a6}, {0x2d07,0x10a7,0x2d07,0x10a7}, {0x2d08,0x10a8,0x2d08,0x10a8}, {0x2d09,0x10a9,0x2d09,0x10a9}, {0x2d0a,0x10aa,0x2d0a,0x10aa},
{0x2d0b,0x10ab,0x2d0b,0x10ab}, {0x2d0c,0x10ac,0x2d0c,0x10ac}, {0x2d0d,0x10ad,0x2d0d,0x10ad}, {0x2d0e,0x10ae,0x2d0e,0x10ae}, {0x2d0f,0x10af,0x2d0f,0x10af}, {0x2d10,0x10b0,0x2d10,0x10b0},
{0x2d11,0x10b1,0x2d11,0x10b1}, {0x2d12,0x10b2,0x2d12,0x10b2}, {0x2d13,0x10b3,0x2d13,0x10b3}, {0x2d14,0x10b4,0x2d14,0x10b4}, {0x2d15,0x10b5,0x2d15,0x10b5}, {0x2d16,0x10b6,0x2d16,0x10b6},
{0x2d17,0x10b7,0x2d17,0x10b7}, {0x2d18,0x10b8,0x2d18,0x10b8}, {0x2d19,0x10b9,0x2d19,0x10b9}, {0x2d1a,0x10ba,0x2d1a,0x10ba}, {0x2d1b,0x10bb,0x2d1b,0x10bb}, {0x2d1c,0x10bc,0x2d1c,0x10bc},
{0x2d1d,0x10bd,0x2d1d,0x10bd}, {0x2d1e,0x10be,0x2d1e,0x10be}, {0x2d1f,0x10bf,0x2d1f,0x10bf}, {0x2d20,0x10c0,0x2d20,0x10c0}, {0x2d21,0x10c1,0x2d21,0x10c1}, {0x2d22,0x10c2,0x2d22,0x10c2},
{0x2d23,0x10c3,0x2d23,0x10c3}, {0x2d24,0x10c4,0x2d24,0x10c4}, {0x2d25,0x10c5,0x2d25,0x10c5}, {0x2d27,0x10c7,0x2d27,0x10c7}, {0x2d2d,0x10cd,0x2d2d,0x10cd}, {0xa640,0xa640,0xa641,0xa640},
{0xa641,0xa640,0xa641,0xa640}, {0xa642,0xa642,0xa643,0xa642}, {0xa643,0xa642,0xa643,0xa642}, {0xa644,0xa644,0xa645,0xa644}, {0xa645,0xa644,0xa645,0xa644}, {0xa646,0xa646,0xa647,0xa646},
{0xa647,0xa646,0xa647,0xa646}, {0xa648,0xa648,0xa649,0xa648}, {0xa649,0xa648,0xa649,0xa648}, {0xa64a,0xa64a,0xa64b,0xa64a}, {0xa64b,0xa64a,0xa64b,0xa64a}, {0xa64c,0xa64c,0xa64d,0xa64c},
{0xa64d,0xa64c,0xa64d,0xa64c}, {0xa64e,0xa64e,0xa64f,0xa64e}, {0xa64f,0xa64e,0xa64f,0xa64e}, {0xa650,0xa650,0xa651,0xa650}, {0xa651,0xa650,0xa651,0xa650}, {0xa652,0xa652,0xa653,0xa652},
{0xa653,0xa652,0xa653,0xa652}, {0xa654,0xa654,0xa655,0xa654}, {0xa655,0xa654,0xa655,0xa654}, {0xa656,0xa656,0xa657,0xa656}, {0xa657,0xa656,0xa657,0xa656}, {0xa658,0xa658,0xa659,0xa658},
{0xa659,0xa658,0xa659,0xa658}, {0xa65a,0xa65a,0xa65b,0xa65a}, {0xa65b,0xa65a,0xa65b,0xa65a}, {0xa65c,0xa65c,0xa65d,0xa65c}, {0xa65d,0xa65c,0xa65d,0xa65c}, {0xa65e,0xa65e,0xa65f,0xa65e},
{0xa65f,0xa65e,0xa65f,0xa65e}, {0xa660,0xa660,0xa661,0xa660}, {0xa661,0xa660,0xa661,0xa660}, {0xa662,0xa662,0xa663,0xa662}, {0xa663,0xa662,0xa663,0xa662}, {0xa664,0xa664,0xa665,0xa664},
{0xa665,0xa664,0xa665,0xa664}, {0xa666,0xa666,0xa667,0xa666}, {0xa667,0xa666,0xa667,0xa666}, {0xa668,0xa668,0xa669,0xa668}, {0xa669,0xa668,0xa669,0xa668}, {0xa66a,0xa66a,0xa66b,0xa66a},
{0xa66b,0xa66a,0xa66b,0xa66a}, {0xa66c,0xa66c,0xa66d,0xa66c}, {0xa66d,0xa66c,0xa66d,0xa66c}, {0xa680,0xa680,0xa681,0xa680}, {0xa681,0xa680,0xa681,0xa680}, {0xa682,0xa682,0xa683,0xa682},
{0xa683,0xa682,0xa683,0xa682}, {0xa684,0xa684,0xa685,0xa684}, {0xa685,0xa684,0xa685,0xa684}, {0xa686,0xa686,0xa687,0xa686}, {0xa687,0xa686,0xa687,0xa686}, {0xa688,0xa688,0xa689,0xa688},
{0xa689,0xa688,0xa689,0xa688}, {0xa68a,0xa68a,0xa68b,0xa68a}, {0xa68b,0xa68a,0xa68b,0xa68a}, {0xa68c,0xa68c,0xa68d,0xa68c}, {0xa68d,0xa68c,0xa68d,0xa68c}, {0xa68e,0xa68e,0xa68f,0xa68e},
{0xa68f,0xa68e,0xa68f,0xa68e}, {0xa690,0xa690,0xa691,0xa690}, {0xa691,0xa690,0xa691,0xa690}, {0xa692,0xa692,0xa693,0xa692}, {0xa693,0xa692,0xa693,0xa692}, {0xa694,0xa694,0xa695,0xa694},
{0xa695,0xa694,0xa695,0xa694}, {0xa696,0xa696,0xa697,0xa696}, {0xa697,0xa696,0xa697,0xa696}, {0xa698,0xa698,0xa699,0xa698}, {0xa699,0xa698,0xa699,0xa698}, {0xa69a,0xa69a,0xa69b,0xa69a},
{0xa69b,0xa69a,0xa69b,0xa69a}, {0xa722,0xa722,0xa723,0xa722}, {0xa723,0xa722,0xa723,0xa722}, {0xa724,0xa724,0xa725,0xa724}, {0xa725,0xa724,0xa725,0xa724}, {0xa726,0xa726,0xa727,0xa726},
{0xa727,0xa726,0xa727,0xa726}, {0xa728,0xa728,0xa729,0xa728}, {0xa729,0xa728,0xa729,0xa728}, {0xa72a,0xa72a,0xa72b,0xa72a}, {0xa72b,0xa72a,0xa72b,0xa72a}, {0xa72c,0xa72c,0xa72d,0xa72c},
{0xa72d,0xa72c,0xa72d,0xa72c}, {0xa72e,0xa72e,0xa72f,0xa72e}, {0xa72f,0xa72e,0xa72f,0xa72e}, {0xa732,0xa732,0xa733,0xa732}, {0xa733,0xa732,0xa733,0xa732}, {0xa734,0xa734,0xa735,0xa734},
{0xa735,0xa734,0xa735,0xa734}, {0xa736,0xa736,0xa737,0xa736}, {0xa737,0xa736,0xa737,0xa736}, {0xa738,0xa738,0xa739,0xa738}, {0xa739,0xa738,0xa739,0xa738}, {0xa73a,0xa73a,0xa73b,0xa73a},
{0xa73b,0xa73a,0xa73b,0xa73a}, {0xa73c,0xa73c,0xa73d,0xa73c}, {0xa73d,0xa73c,0xa73d,0xa73c}, {0xa73e,0xa73e,0xa73f,0xa73e}, {0xa73f,0xa73e,0xa73f,0xa73e}, {0xa740,0xa740,0xa741,0xa740},
{0xa741,0xa740,0xa741,0xa740}, {0xa742,0xa742,0xa743,0xa742}, {0xa743,0xa742,0xa743,0xa742}, {0xa744,0xa744,0xa745,0xa744}, {0xa745,0xa744,0xa745,0xa744}, {0xa746,0xa746,0xa747,0xa746},
{0xa747,0xa746,0xa747,0xa746}, {0xa748,0xa748,0xa749,0xa748}, {0xa749,0xa748,0xa749,0xa748}, {0xa74a,0xa74a,0xa74b,0xa74a}, {0xa74b,0xa74a,0xa74b,0xa74a}, {0xa74c,0xa74c,0xa74d,0xa74c},
{0xa74d,0xa74c,0xa74d,0xa74c}, {0xa74e,0xa74e,0xa74f,0xa74e}, {0xa74f,0xa74e,0xa74f,0xa74e}, {0xa750,0xa750,0xa751,0xa750}, {0xa751,0xa750,0xa751,0xa750}, {0xa752,0xa752,0xa753,0xa752},
{0xa753,0xa752,0xa753,0xa752}, {0xa754,0xa754,0xa755,0xa754}, {0xa755,0xa754,0xa755,0xa754}, {0xa756,0xa756,0xa757,0xa756}, {0xa757,0xa756,0xa757,0xa756}, {0xa758,0xa758,0xa759,0xa758},
{0xa759,0xa758,0xa759,0xa758}, {0xa75a,0xa75a,0xa75b,0xa75a}, {0xa75b,0xa75a,0xa75b,0xa75a}, {0xa75c,0xa75c,0xa75d,0xa75c}, {0xa75d,0xa75c,0xa75d,0xa75c}, {0xa75e,0xa75e,0xa75f,0xa75e},
{0xa75f,0xa75e,0xa75f,0xa75e}, {0xa760,0xa760,0xa761,0xa760}, {0xa761,0xa760,0xa761,0xa760}, {0xa762,0xa762,0xa763,0xa762}, {0xa763,0xa762,0xa763,0xa762}, {0xa764,0xa764,0xa765,0xa764},
{0xa765,0xa764,0xa765,0xa764}, {0xa766,0xa766,0xa767,0xa766}, {0xa767,0xa766,0xa767,0xa766}, {0xa768,0xa768,0xa769,0xa768}, {0xa769,0xa768,0xa769,0xa768}, {0xa76a,0xa76a,0xa76b,0xa76a},
{0xa76b,0xa76a,0xa76b,0xa76a}, {0xa76c,0xa76c,0xa76d,0xa76c}, {0xa76d,0xa76c,0xa76d,0xa76c}, {0xa76e,0xa76e,0xa76f,0xa76e}, {0xa76f,0xa76e,0xa76f,0xa76e}, {0xa779,0xa779,0xa77a,0xa779},
{0xa77a,0xa779,0xa77a,0xa779}, {0xa77b,0xa77b,0xa77c,0xa77b}, {0xa77c,0xa77b,0xa77c,0xa77b}, {0xa77d,0xa77d,0x1d79,0xa77d}, {0xa77e,0xa77e,0xa77f,0xa77e}, {0xa77f,0xa77e,0xa77f,0xa77e},
{0xa780,0xa780,0xa781,0xa780}, {0xa781,0xa780,0xa781,0xa780}, {0xa782,0xa782,0xa783,0xa782}, {0xa783,0xa782,0xa783,0xa782}, {0xa784,0xa784,0xa785,0xa784}, {0xa785,0xa784,0xa785,0xa784},
{0xa786,0xa786,0xa787,0xa786}, {0xa787,0xa786,0xa787,0xa786}, {0xa78b,0xa78b,0xa78c,0xa78b}, {0xa78c,0xa78b,0xa78c,0xa78b}, {0xa78d,0xa78d,0x265,0xa78d}, {0xa790,0xa790,0xa791,0xa790},
{0xa791,0xa790,0xa791,0xa790}, {0xa792,0xa792,0xa793,0xa792}, {0xa793,0xa792,0xa793,0xa792}, {0xa794,0xa7c4,0xa794,0xa7c4}, {0xa796,0xa796,0xa797,0xa796}, {0xa797,0xa796,0xa797,0xa796},
{0xa798,0xa798,0xa799,0xa798}, {0xa799,0xa798,0xa799,0xa798}, {0xa79a,0xa79a,0xa79b,0xa79a}, {0xa79b,0xa79a,0xa79b,0xa79a}, {0xa79c,0xa79c,0xa79d,0xa79c}, {0xa79d,0xa79c,0xa79d,0xa79c},
{0xa79e,0xa79e,0xa79f,0xa79e}, {0xa79f,0xa79e,0xa79f,0xa79e}, {0xa7a0,0xa7a0,0xa7a1,0xa7a0}, {0xa7a1,0xa7a0,0xa7a1,0xa7a0}, {0xa7a2,0xa7a2,0xa7a3,0xa7a2}, {0xa7a3,0xa7a2,0xa7a3,0xa7a2},
{0xa7a4,0xa7a4,0xa7a5,0xa7a4}, {0xa7a5,0xa7a4,0xa7a5,0xa7a4}, {0xa7a6,0xa7a6,0xa7a7,0xa7a6}, {0xa7a7,0xa7a6,0xa7a7,0xa7a6}, {0xa7a8,0xa7a8,0xa7a9,0xa7a8}, {0xa7a9,0xa7a8,0xa7a9,0xa7a8},
{0xa7aa,0xa7aa,0x266,0xa7aa}, {0xa7ab,0xa7ab,0x25c,0xa7ab}, {0xa7ac,0xa7ac,0x261,0xa7ac}, {0xa7ad,0xa7ad,0x26c,0xa7ad}, {0xa7ae,0xa7ae,0x26a,0xa7ae}, {0xa7b0,0xa7b0,0x29e,0xa7b0},
{0xa7b1,0xa7b1,0x287,0xa7b1}, {0xa7b2,0xa7b2,0x29d,0xa7b2}, {0xa7b3,0xa7b3,0xab53,0xa7b3}, {0xa7b4,0xa7b4,0xa7b5,0xa7b4}, {0xa7b5,0xa7b4,0xa7b5,0xa7b4}, {0xa7b6,0xa7b6,0xa7b7,0xa7b6},
{0xa7b7,0xa7b6,0xa7b7,0xa7b6}, {0xa7b8,0xa7b8,0xa7b9,0xa7b8}, {0xa7b9,0xa7b8,0xa7b9,0xa7b8}, {0xa7ba,0xa7ba,0xa7bb,0xa7ba}, {0xa7bb,0xa7ba,0xa7bb,0xa7ba}, {0xa7bc,0xa7bc,0xa7bd,0xa7bc},
{0xa7bd,0xa7bc,0xa7bd,0xa7bc}, {0xa7be,0xa7be,0xa7bf,0xa7be}, {0xa7bf,0xa7be,0xa7bf,0xa7be}, {0xa7c0,0xa7c0,0xa7c1,0xa7c0}, {0xa7c1,0xa7c0,0xa7c1,0xa7c0}, {0xa7c2,0xa7c2,0xa7c3,0xa7c2},
{0xa7c3,0xa7c2,0xa7c3,0xa7c2}, {0xa7c4,0xa7c4,0xa794,0xa7c4}, {0xa7c5,0xa7c5,0x282,0xa7c5}, {0xa7c6,0xa7c6,0x1d8e,0xa7c6}, {0xa7c7,0xa7c7,0xa7c8,0xa7c7}, {0xa7c8,0xa7c7,0xa7c8,0xa7c7},
{0xa7c9,0xa7c9,0xa7ca,0xa7c9}, {0xa7ca,0xa7c9,0xa7ca,0xa7c9}, {0xa7cb,0xa7cb,0x264,0xa7cb}, {0xa7cc,0xa7cc,0xa7cd,0xa7cc}, {0xa7cd,0xa7cc,0xa7cd,0xa7cc}, {0xa7d0,0xa7d0,0xa7d1,0xa7d0},
{0xa7d1,0xa7d0,0xa7d1,0xa7d0}, {0xa7d6,0xa7d6,0xa7d7,0xa7d6}, {0xa7d7,0xa7d6,0xa7d7,0xa7d6}, {0xa7d8,0xa7d8,0xa7d9,0xa7d8}, {0xa7d9,0xa7d8,0xa7d9,0xa7d8}, {0xa7da,0xa7da,0xa7db,0xa7da},
{0xa7db,0xa7da,0xa7db,0xa7da}, {0xa7dc,0xa7dc,0x19b,0xa7dc}, {0xa7f5,0xa7f5,0xa7f6,0xa7f5}, {0xa7f6,0xa7f5,0xa7f6,0xa7f5}, {0xab53,0xa7b3,0xab53,0xa7b3}, {0xab70,0x13a0,0xab70,0x13a0},
{0xab71,0x13a1,0xab71,0x13a1}, {0xab72,0x13a2,0xab72,0x13a2}, {0xab73,0x13a3,0xab73,0x13a3}, {0xab74,0x13a4,0xab74,0x13a4}, {0xab75,0x13a5,0xab75,0x13a5}, {0xab76,0x13a6,0xab76,0x13a6},
{0xab77,0x13a7,0xab77,0x13a7}, {0xab78,0x13a8,0xab78,0x13a8}, {0xab79,0x13a9,0xab79,0x13a9}, {0xab7a,0x13aa,0xab7a,0x13aa}, {0xab7b,0x13ab,0xab7b,0x13ab}, {0xab7c,0x13ac,0xab7c,0x13ac},
{0xab7d,0x13ad,0xab7d,0x13ad}, {0xab7e,0x13ae,0xab7e,0x13ae}, {0xab7f,0x13af,0xab7f,0x13af}, {0xab80,0x13b0,0xab80,0x13b0}, {0xab81,0x13b1,0xab81,0x13b1}, {0xab82,0x13b2,0xab82,0x13b2},
{0xab83,0x13b3,0xab83,0x13b3}, {0xab84,0x13b4,0xab84,0x13b4}, {0xab85,0x13b5,0xab85,0x13b5}, {0xab86,0x13b6,0xab86,0x13b6}, {0xab87,0x13b7,0xab87,0x13b7}, {0xab88,0x13b8,0xab88,0x13b8},
{0xab89,0x13b9,0xab89,0x13b9}, {0xab8a,0x13ba,0xab8a,0x13ba}, {0xab8b,0x13bb,0xab8b,0x13bb}, {0xab8c,0x13bc,0xab8c,0x13bc}, {0xab8d,0x13bd,0xab8d,0x13bd}, {0xab8e,0x13be,0xab8e,0x13be},
{0xab8f,0x13bf,0xab8f,0x13bf}, {0xab90,0x13c0,0xab90,0x13c0}, {0xab91,0x13c1,0xab91,0x13c1}, {0xab92,0x13c2,0xab92,0x13c2}, {0xab93,0x13c3,0xab93,0x13c3}, {0xab94,0x13c4,0xab94,0x13c4},
{0xab95,0x13c5,0xab95,0x13c5}, {0xab96,0x13c6,0xab96,0x13c6}, {0xab97,0x13c7,0xab97,0x13c7}, {0xab98,0x13c8,0xab98,0x13c8}, {0xab99,0x13c9,0xab99,0x13c9}, {0xab9a,0x13ca,0xab9a,0x13ca},
{0xab9b,0x13cb,0xab9b,0x13cb}, {0xab9c,0x13cc,0xab9c,0x13cc}, {0xab9d,0x13cd,0xab9d,0x13cd}, {0xab9e,0x13ce,0xab9e,0x13ce}, {0xab9f,0x13cf,0xab9f,0x13cf}, {0xaba0,0x13d0,0xaba0,0x13d0},
{0xaba1,0x13d1,0xaba1,0x13d1}, {0xaba2,0x13d2,0xaba2,0x13d2}, {0xaba3,0x13d3,0xaba3,0x13d3}, {0xaba4,0x13d4,0xaba4,0x13d4}, {0xaba5,0x13d5,0xaba5,0x13d5}, {0xaba6,0x13d6,0xaba6,0x13d6},
{0xaba7,0x13d7,0xaba7,0x13d7}, {0xaba8,0x13d8,0xaba8,0x13d8}, {0xaba9,0x13d9,0xaba9,0x13d9}, {0xabaa,0x13da,0xabaa,0x13da}, {0xabab,0x13db,0xabab,0x13db}, {0xabac,0x13dc,0xabac,0x13dc},
{0xabad,0x13dd,0xabad,0x13dd}, {0xabae,0x13de,0xabae,0x13de}, {0xabaf,0x13df,0xabaf,0x13df}, {0xabb0,0x13e0,0xabb0,0x13e0}, {0xabb1,0x13e1,0xabb1,0x13e1}, {0xabb2,0x13e2,0xabb2,0x13e2},
{0xabb3,0x13e3,0xabb3,0x13e3}, {0xabb4,0x13e4,0xabb4,0x13e4}, {0xabb5,0x13e5,0xabb5,0x13e5}, {0xabb6,0x13e6,0xabb6,0x13e6}, {0xabb7,0x13e7,0xabb7,0x13e7}, {0xabb8,0x13e8,0xabb8,0x13e8},
{0xabb9,0x13e9,0xabb9,0x13e9}, {0xabba,0x13ea,0xabba,0x13ea}, {0xabbb,0x13eb,0xabbb,0x13eb}, {0xabbc,0x13ec,0xabbc,0x13ec}, {0xabbd,0x13ed,0xabbd,0x13ed}, {0xabbe,0x13ee,0xabbe,0x13ee},
{0xabbf,0x13ef,0xabbf,0x13ef}, {0xff21,0xff21,0xff41,0xff21}, {0xff22,0xff22,0xff42,0xff22}, {0xff23,0xff23,0xff43,0xff23}, {0xff24,0xff24,0xff44,0xff24}, {0xff25,0xff25,0xff45,0xff25},
{0xff26,0xff26,0xff46,0xff26}, {0xff27,0xff27,0xff47,0xff27}, {0xff28,0xff28,0xff48,0xff28}, {0xff29,0xff29,0xff49,0xff29}, {0xff2a,0xff2a,0xff4a,0xff2a}, {0xff2b,0xff2b,0xff4b,0xff2b},
{0xff2c,0xff2c,0xff4c,0xff2c}, {0xff2d,0xff2d,0xff4d,0xff2d}, {0xff2e,0xff2e,0xff4e,0xff2e}, {0xff2f,0xff2f,0xff4f,0xff2f}, {0xff30,0xff30,0xff50,0xff30}, {0xff31,0xff31,0xff51,0xff31},
{0xff32,0xff32,0xff52,0xff32}, {0xff33,0xff33,0xff53,0xff33}, {0xff34,0xff34,0xff54,0xff34}, {0xff35,0xff35,0xff55,0xff35}, {0xff36,0xff36,0xff56,0xff36}, {0xff37,0xff37,0xff57,0xff37},
{0xff38,0xff38,0xff58,0xff38}, {0xff39,0xff39,0xff59,0xff39}, {0xff3a,0xff3a,0xff5a,0xff3a}, {0xff41,0xff21,0xff41,0xff21}, {0xff42,0xff22,0xff42,0xff22}, {0xff43,0xff23,0xff43,0xff23},
{0xff44,0xff24,0xff44,0xff24}, {0xff45,0xff25,0xff45,0xff25}, {0xff46,0xff26,0xff46,0xff26}, {0xff47,0xff27,0xff47,0xff27}, {0xff48,0xff28,0xff48,0xff28}, {0xff49,0xff29,0xff49,0xff29},
{0xff4a,0xff2a,0xff4a,0xff2a}, {0xff4b,0xff2b,0xff4b,0xff2b}, {0xff4c,0xff2c,0xff4c,0xff2c}, {0xff4d,0xff2d,0xff4d,0xff2d}, {0xff4e,0xff2e,0xff4e,0xff2e}, {0xff4f,0xff2f,0xff4f,0xff2f},
{0xff50,0xff30,0xff50,0xff30}, {0xff51,0xff31,0xff51,0xff31}, {0xff52,0xff32,0xff52,0xff32}, {0xff53,0xff33,0xff53,0xff33}, {0xff54,0xff34,0xff54,0xff34}, {0xff55,0xff35,0xff55,0xff35},
{0xff56,0xff36,0xff56,0xff36}, {0xff57,0xff37,0xff57,0xff37}, {0xff58,0xff38,0xff58,0xff38}, {0xff59,0xff39,0xff59,0xff39}, {0xff5a,0xff3a,0xff5a,0xff3a}, {0x10400,0x10400,0x10428,0x10400},
{0x10401,0x10401,0x10429,0x10401}, {0x10402,0x10402,0x1042a,0x10402}, {0x10403,0x10403,0x1042b,0x10403}, {0x10404,0x10404,0x1042c,0x10404}, {0x10405,0x10405,0x1042d,0x10405}, {0x10406,0x10406,0x1042e,0x10406},
{0x10407,0x10407,0x1042f,0x10407}, {0x10408,0x10408,0x10430,0x10408}, {0x10409,0x10409,0x10431,0x10409}, {0x1040a,0x1040a,0x10432,0x1040a}, {0x1040b,0x1040b,0x10433,0x1040b}, {0x1040c,0x1040c,0x10434,0x1040c},
{0x1040d,0x1040d,0x10435,0x1040d}, {0x1040e,0x1040e,0x10436,0x1040e}, {0x1040f,0x1040f,0x10437,0x1040f}, {0x10410,0x10410,0x10438,0x10410}, {0x10411,0x10411,0x10439,0x10411}, {0x10412,0x10412,0x1043a,0x10412},
{0x10413,0x10413,0x1043b,0x10413}, {0x10414,0x10414,0x1043c,0x10414}, {0x10415,0x10415,0x1043d,0x10415}, {0x10416,0x10416,0x1043e,0x10416}, {0x10417,0x10417,0x1043f,0x10417}, {0x10418,0x10418,0x10440,0x10418},
{0x10419,0x10419,0x10441,0x10419}, {0x1041a,0x1041a,0x10442,0x1041a}, {0x1041b,0x1041b,0x10443,0x1041b}, {0x1041c,0x1041c,0x10444,0x1041c}, {0x1041d,0x1041d,0x10445,0x1041d}, {0x1041e,0x1041e,0x10446,0x1041e},
{0x1041f,0x1041f,0x10447,0x1041f}, {0x10420,0x10420,0x10448,0x10420}, {0x10421,0x10421,0x10449,0x10421}, {0x10422,0x10422,0x1044a,0x10422}, {0x10423,0x10423,0x1044b,0x10423}, {0x10424,0x10424,0x1044c,0x10424},
{0x10425,0x10425,0x1044d,0x10425}, {0x10426,0x10426,0x1044e,0x10426}, {0x10427,0x10427,0x1044f,0x10427}, {0x10428,0x10400,0x10428,0x10400}, {0x10429,0x10401,0x10429,0x10401}, {0x1042a,0x10402,0x1042a,0x10402},
{0x1042b,0x10403,0x1042b,0x10403}, {0x1042c,0x10404,0x1042c,0x10404}, {0x1042d,0x10405,0x1042d,0x10405}, {0x1042e,0x10406,0x1042e,0x10406}, {0x1042f,0x10407,0x1042f,0x10407}, {0x10430,0x10408,0x10430,0x10408},
{0x10431,0x10409,0x10431,0x10409}, {0x10432,0x1040a,0x10432,0x1040a}, {0x10433,0x1040b,0x10433,0x1040b}, {0x10434,0x1040c,0x10434,0x1040c}, {0x10435,0x1040d,0x10435,0x1040d}, {0x10436,0x1040e,0x10436,0x1040e},
{0x10437,0x1040f,0x10437,0x1040f}, {0x10438,0x10410,0x10438,0x10410}, {0x10439,0x10411,0x10439,0x10411}, {0x1043a,0x10412,0x1043a,0x10412}, {0x1043b,0x10413,0x1043b,0x10413}, {0x1043c,0x10414,0x1043c,0x10414},
{0x1043d,0x10415,0x1043d,0x10415}, {0x1043e,0x10416,0x1043e,0x10416}, {0x1043f,0x10417,0x1043f,0x10417}, {0x10440,0x10418,0x10440,0x10418}, {0x10441,0x10419,0x10441,0x10419}, {0x10442,0x1041a,0x10442,0x1041a},
{0x10443,0x1041b,0x10443,0x1041b}, {0x10444,0x1041c,0x10444,0x1041c}, {0x10445,0x1041d,0x10445,0x1041d}, {0x10446,0x1041e,0x10446,0x1041e}, {0x10447,0x1041f,0x10447,0x1041f}, {0x10448,0x10420,0x10448,0x10420},
{0x10449,0x10421,0x10449,0x10421}, {0x1044a,0x10422,0x1044a,0x10422}, {0x1044b,0x10423,0x1044b,0x10423}, {0x1044c,0x10424,0x1044c,0x10424}, {0x1044d,0x10425,0x1044d,0x10425}, {0x1044e,0x10426,0x1044e,0x10426},
{0x1044f,0x10427,0x1044f,0x10427}, {0x104b0,0x104b0,0x104d8,0x104b0}, {0x104b1,0x104b1,0x104d9,0x104b1}, {0x104b2,0x104b2,0x104da,0x104b2}, {0x104b3,0x104b3,0x104db,0x104b3}, {0x104b4,0x104b4,0x104dc,0x104b4},
{0x104b5,0x104b5,0x104dd,0x104b5}, {0x104b6,0x104b6,0x104de,0x104b6}, {0x104b7,0x104b7,0x104df,0x104b7}, {0x104b8,0x104b8,0x104e0,0x104b8}, {0x104b9,0x104b9,0x104e1,0x104b9}, {0x104ba,0x104ba,0x104e2,0x104ba},
{0x104bb,0x104bb,0x104e3,0x104bb}, {0x104bc,0x104bc,0x104e4,0x104bc}, {0x104bd,0x104bd,0x104e5,0x104bd}, {0x104be,0x104be,0x104e6,0x104be}, {0x104bf,0x104bf,0x104e7,0x104bf}, {0x104c0,0x104c0,0x104e8,0x104c0},
{0x104c1,0x104c1,0x104e9,0x104c1}, {0x104c2,0x104c2,0x104ea,0x104c2}, {0x104c3,0x104c3,0x104eb,0x104c3}, {0x104c4,0x104c4,0x104ec,0x104c4}, {0x104c5,0x104c5,0x104ed,0x104c5}, {0x104c6,0x104c6,0x104ee,0x104c6},
{0x104c7,0x104c7,0x104ef,0x104c7}, {0x104c8,0x104c8,0x104f0,0x104c8}, {0x104c9,0x104c9,0x104f1,0x104c9}, {0x104ca,0x104ca,0x104f2,0x104ca}, {0x104cb,0x104cb,0x104f3,0x104cb}, {0x104cc,0x104cc,0x104f4,0x104cc},
{0x104cd,0x104cd,0x104f5,0x104cd}, {0x104ce,0x104ce,0x104f6,0x104ce}, {0x104cf,0x104cf,0x104f7,0x104cf}, {0x104d0,0x104d0,0x104f8,0x104d0}, {0x104d1,0x104d1,0x104f9,0x104d1}, {0x104d2,0x104d2,0x104fa,0x104d2},
{0x104d3,0x104d3,0x104fb,0x104d3}, {0x104d8,0x104b0,0x104d8,0x104b0}, {0x104d9,0x104b1,0x104d9,0x104b1}, {0x104da,0x104b2,0x104da,0x104b2}, {0x104db,0x104b3,0x104db,0x104b3}, {0x104dc,0x104b4,0x104dc,0x104b4},
{0x104dd,0x104b5,0x104dd,0x104b5}, {0x104de,0x104b6,0x104de,0x104b6}, {0x104df,0x104b7,0x104df,0x104b7}, {0x104e0,0x104b8,0x104e0,0x104b8}, {0x104e1,0x104b9,0x104e1,0x104b9}, {0x104e2,0x104ba,0x104e2,0x104ba},
{0x104e3,0x104bb,0x104e3,0x104bb}, {0x104e4,0x104bc,0x104e4,0x104bc}, {0x104e5,0x104bd,0x104e5,0x104bd}, {0x104e6,0x104be,0x104e6,0x104be}, {0x104e7,0x104bf,0x104e7,0x104bf}, {0x104e8,0x104c0,0x104e8,0x104c0},
{0x104e9,0x104c1,0x104e9,0x104c1}, {0x104ea,0x104c2,0x104ea,0x104c2}, {0x104eb,0x104c3,0x104eb,0x104c3}, {0x104ec,0x104c4,0x104ec,0x104c4}, {0x104ed,0x104c5,0x104ed,0x104c5}, {0x104ee,0x104c6,0x104ee,0x104c6},
{0x104ef,0x104c7,0x104ef,0x104c7}, {0x104f0,0x104c8,0x104f0,0x104c8}, {0x104f1,0x104c9,0x104f1,0x104c9}, {0x104f2,0x104ca,0x104f2,0x104ca}, {0x104f3,0x104cb,0x104f3,0x104cb}, {0x104f4,0x104cc,0x104f4,0x104cc},
{0x104f5,0x104cd,0x104f5,0x104cd}, {0x104f6,0x104ce,0x104f6,0x104ce}, {0x104f7,0x104cf,0x104f7,0x104cf}, {0x104f8,0x104d0,0x104f8,0x104d0}, {0x104f9,0x104d1,0x104f9,0x104d1}, {0x104fa,0x104d2,0x104fa,0x104d2},
{0x104fb,0x104d3,0x104fb,0x104d3}, {0x10570,0x10570,0x10597,0x10570}, {0x10571,0x10571,0x10598,0x10571}, {0x10572,0x10572,0x10599,0x10572}, {0x10573,0x10573,0x1059a,0x10573}, {0x10574,0x10574,0x1059b,0x10574},
{0x10575,0x10575,0x1059c,0x10575}, {0x10576,0x10576,0x1059d,0x10576}, {0x10577,0x10577,0x1059e,0x10577}, {0x10578,0x10578,0x1059f,0x10578}, {0x10579,0x10579,0x105a0,0x10579}, {0x1057a,0x1057a,0x105a1,0x1057a},
{0x1057c,0x1057c,0x105a3,0x1057c}, {0x1057d,0x1057d,0x105a4,0x1057d}, {0x1057e,0x1057e,0x105a5,0x1057e}, {0x1057f,0x1057f,0x105a6,0x1057f}, {0x10580,0x10580,0x105a7,0x10580}, {0x10581,0x10581,0x105a8,0x10581},
{0x10582,0x10582,0x105a9,0x10582}, {0x10583,0x10583,0x105aa,0x10583}, {0x10584,0x10584,0x105ab,0x10584}, {0x10585,0x10585,0x105ac,0x10585}, {0x10586,0x10586,0x105ad,0x10586}, {0x10587,0x10587,0x105ae,0x10587},
{0x10588,0x10588,0x105af,0x10588}, {0x10589,0x10589,0x105b0,0x10589}, {0x1058a,0x1058a,0x105b1,0x1058a}, {0x1058c,0x1058c,0x105b3,0x1058c}, {0x1058d,0x1058d,0x105b4,0x1058d}, {0x1058e,0x1058e,0x105b5,0x1058e},
{0x1058f,0x1058f,0x105b6,0x1058f}, {0x10590,0x10590,0x105b7,0x10590}, {0x10591,0x10591,0x105b8,0x10591}, {0x10592,0x10592,0x105b9,0x10592}, {0x10594,0x10594,0x105bb,0x10594}, {0x10595,0x10595,0x105bc,0x10595},
{0x10597,0x10570,0x10597,0x10570}, {0x10598,0x10571,0x10598,0x10571}, {0x10599,0x10572,0x10599,0x10572}, {0x1059a,0x10573,0x1059a,0x10573}, {0x1059b,0x10574,0x1059b,0x10574}, {0x1059c,0x10575,0x1059c,0x10575},
{0x1059d,0x10576,0x1059d,0x10576}, {0x1059e,0x10577,0x1059e,0x10577}, {0x1059f,0x10578,0x1059f,0x10578}, {0x105a0,0x10579,0x105a0,0x10579}, {0x105a1,0x1057a,0x105a1,0x1057a}, {0x105a3,0x1057c,0x105a3,0x1057c},
{0x105a4,0x1057d,0x105a4,0x1057d}, {0x105a5,0x1057e,0x105a5,0x1057e}, {0x105a6,0x1057f,0x105a6,0x1057f}, {0x105a7,0x10580,0x105a7,0x10580}, {0x105a8,0x10581,0x105a8,0x10581}, {0x105a9,0x10582,0x105a9,0x10582},
{0x105aa,0x10583,0x105aa,0x10583}, {0x105ab,0x10584,0x105ab,0x10584}, {0x105ac,0x10585,0x105ac,0x10585}, {0x105ad,0x10586,0x105ad,0x10586}, {0x105ae,0x10587,0x105ae,0x10587}, {0x105af,0x10588,0x105af,0x10588},
{0x105b0,0x10589,0x105b0,0x10589}, {0x105b1,0x1058a,0x105b1,0x1058a}, {0x105b3,0x1058c,0x105b3,0x1058c}, {0x105b4,0x1058d,0x105b4,0x1058d}, {0x105b5,0x1058e,0x105b5,0x1058e}, {0x105b6,0x1058f,0x105b6,0x1058f},
{0x105b7,0x10590,0x105b7,0x10590}, {0x105b8,0x10591,0x105b8,0x10591}, {0x105b9,0x10592,0x105b9,0x10592}, {0x105bb,0x10594,0x105bb,0x10594}, {0x105bc,0x10595,0x105bc,0x10595}, {0x10c80,0x10c80,0x10cc0,0x10c80},
{0x10c81,0x10c81,0x10cc1,0x10c81}, {0x10c82,0x10c82,0x10cc2,0x10c82}, {0x10c83,0x10c83,0x10cc3,0x10c83}, {0x10c84,0x10c84,0x10cc4,0x10c84}, {0x10c85,0x10c85,0x10cc5,0x10c85}, {0x10c86,0x10c86,0x10cc6,0x10c86},
{0x10c87,0x10c87,0x10cc7,0x10c87}, {0x10c88,0x10c88,0x10cc8,0x10c88}, {0x10c89,0x10c89,0x10cc9,0x10c89}, {0x10c8a,0x10c8a,0x10cca,0x10c8a}, {0x10c8b,0x10c8b,0x10ccb,0x10c8b}, {0x10c8c,0x10c8c,0x10ccc,0x10c8c},
{0x10c8d,0x10c8d,0x10ccd,0x10c8d}, {0x10c8e,0x10c8e,0x10cce,0x10c8e}, {0x10c8f,0x10c8f,0x10ccf,0x10c8f}, {0x10c90,0x10c90,0x10cd0,0x10c90}, {0x10c91,0x10c91,0x10cd1,0x10c91}, {0x10c92,0x10c92,0x10cd2,0x10c92},
{0x10c93,0x10c93,0x10cd3,0x10c93}, {0x10c94,0x10c94,0x10cd4,0x10c94}, {0x10c95,0x10c95,0x10cd5,0x10c95}, {0x10c96,0x10c96,0x10cd6,0x10c96}, {0x10c97,0x10c97,0x10cd7,0x10c97}, {0x10c98,0x10c98,0x10cd8,0x10c98},
{0x10c99,0x10c99,0x10cd9,0x10c99}, {0x10c9a,0x10c9a,0x10cda,0x10c9a}, {0x10c9b,0x10c9b,0x10cdb,0x10c9b}, {0x10c9c,0x10c9c,0x10cdc,0x10c9c}, {0x10c9d,0x10c9d,0x10cdd,0x10c9d}, {0x10c9e,0x10c9e,0x10cde,0x10c9e},
{0x10c9f,0x10c9f,0x10cdf,0x10c9f}, {0x10ca0,0x10ca0,0x10ce0,0x10ca0}, {0x10ca1,0x10ca1,0x10ce1,0x10ca1}, {0x10ca2,0x10ca2,0x10ce2,0x10ca2}, {0x10ca3,0x10ca3,0x10ce3,0x10ca3}, {0x10ca4,0x10ca4,0x10ce4,0x10ca4},
{0x10ca5,0x10ca5,0x10ce5,0x10ca5}, {0x10ca6,0x10ca6,0x10ce6,0x10ca6}, {0x10ca7,0x10ca7,0x10ce7,0x10ca7}, {0x10ca8,0x10ca8,0x10ce8,0x10ca8}, {0x10ca9,0x10ca9,0x10ce9,0x10ca9}, {0x10caa,0x10caa,0x10cea,0x10caa},
{0x10cab,0x10cab,0x10ceb,0x10cab}, {0x10cac,0x10cac,0x10cec,0x10cac}, {0x10cad,0x10cad,0x10ced,0x10cad}, {0x10cae,0x10cae,0x10cee,0x10cae}, {0x10caf,0x10caf,0x10cef,0x10caf}, {0x10cb0,0x10cb0,0x10cf0,0x10cb0},
{0x10cb1,0x10cb1,0x10cf1,0x10cb1}, {0x10cb2,0x10cb2,0x10cf2,0x10cb2}, {0x10cc0,0x10c80,0x10cc0,0x10c80}, {0x10cc1,0x10c81,0x10cc1,0x10c81}, {0x10cc2,0x10c82,0x10cc2,0x10c82}, {0x10cc3,0x10c83,0x10cc3,0x10c83},
{0x10cc4,0x10c84,0x10cc4,0x10c84}, {0x10cc5,0x10c85,0x10cc5,0x10c85}, {0x10cc6,0x10c86,0x10cc6,0x10c86}, {0x10cc7,0x10c87,0x10cc7,0x10c87}, {0x10cc8,0x10c88,0x10cc8,0x10c88}, {0x10cc9,0x10c89,0x10cc9,0x10c89},
{0x10cca,0x10c8a,0x10cca,0x10c8a}, {0x10ccb,0x10c8b,0x10ccb,0x10c8b}, {0x10ccc,0x10c8c,0x10ccc,0x10c8c}, {0x10ccd,0x10c8d,0x10ccd,0x10c8d}, {0x10cce,0x10c8e,0x10cce,0x10c8e}, {0x10ccf,0x10c8f,0x10ccf,0x10c8f},
{0x10cd0,0x10c90,0x10cd0,0x10c90}, {0x10cd1,0x10c91,0x10cd1,0x10c91}, {0x10cd2,0x10c92,0x10cd2,0x10c92}, {0x10cd3,0x10c93,0x10cd3,0x10c93}, {0x10cd4,0x10c94,0x10cd4,0x10c94}, {0x10cd5,0x10c95,0x10cd5,0x10c95},
{0x10cd6,0x10c96,0x10cd6,0x10c96}, {0x10cd7,0x10c97,0x10cd7,0x10c97}, {0x10cd8,0x10c98,0x10cd8,0x10c98}, {0x10cd9,0x10c99,0x10cd9,0x10c99}, {0x10cda,0x10c9a,0x10cda,0x10c9a}, {0x10cdb,0x10c9b,0x10cdb,0x10c9b},
{0x10cdc,0x10c9c,0x10cdc,0x10c9c}, {0x10cdd,0x10c9d,0x10cdd,0x10c9d}, {0x10cde,0x10c9e,0x10cde,0x10c9e}, {0x10cdf,0x10c9f,0x10cdf,0x10c9f}, {0x10ce0,0x10ca0,0x10ce0,0x10ca0}, {0x10ce1,0x10ca1,0x10ce1,0x10ca1},
{0x10ce2,0x10ca2,0x10ce2,0x10ca2}, {0x10ce3,0x10ca3,0x10ce3,0x10ca3}, {0x10ce4,0x10ca4,0x10ce4,0x10ca4}, {0x10ce5,0x10ca5,0x10ce5,0x10ca5}, {0x10ce6,0x10ca6,0x10ce6,0x10ca6}, {0x10ce7,0x10ca7,0x10ce7,0x10ca7},
{0x10ce8,0x10ca8,0x10ce8,0x10ca8}, {0x10ce9,0x10ca9,0x10ce9,0x10ca9}, {0x10cea,0x10caa,0x10cea,0x10caa}, {0x10ceb,0x10cab,0x10ceb,0x10cab}, {0x10cec,0x10cac,0x10cec,0x10cac}, {0x10ced,0x10cad,0x10ced,0x10cad},
{0x10cee,0x10cae,0x10cee,0x10cae}, {0x10cef,0x10caf,0x10cef,0x10caf}, {0x10cf0,0x10cb0,0x10cf0,0x10cb0}, {0x10cf1,0x10cb1,0x10cf1,0x10cb1}, {0x10cf2,0x10cb2,0x10cf2,0x10cb2}, {0x10d50,0x10d50,0x10d70,0x10d50},
{0x10d51,0x10d51,0x10d71,0x10d51}, {0x10d52,0x10d52,0x10d72,0x10d52}, {0x10d53,0x10d53,0x10d73,0x10d53}, {0x10d54,0x10d54,0x10d74,0x10d54}, {0x10d55,0x10d55,0x10d75,0x10d55}, {0x10d56,0x10d56,0x10d76,0x10d56},
{0x10d57,0x10d57,0x10d77,0x10d57}, {0x10d58,0x10d58,0x10d78,0x10d58}, {0x10d59,0x10d59,0x10d79,0x10d59}, {0x10d5a,0x10d5a,0x10d7a,0x10d5a}, {0x10d5b,0x10d5b,0x10d7b,0x10d5b}, {0x10d5c,0x10d5c,0x10d7c,0x10d5c},
{0x10d5d,0x10d5d,0x10d7d,0x10d5d}, {0x10d5e,0x10d5e,0x10d7e,0x10d5e}, {0x10d5f,0x10d5f,0x10d7f,0x10d5f}, {0x10d60,0x10d60,0x10d80,0x10d60}, {0x10d61,0x10d61,0x10d81,0x10d61}, {0x10d62,0x10d62,0x10d82,0x10d62},
{0x10d63,0x10d63,0x10d83,0x10d63}, {0x10d64,0x10d64,0x10d84,0x10d64}, {0x10d65,0x10d65,0x10d85,0x10d65}, {0x10d70,0x10d50,0x10d70,0x10d50}, {0x10d71,0x10d51,0x10d71,0x10d51}, {0x10d72,0x10d52,0x10d72,0x10d52},
{0x10d73,0x10d53,0x10d73,0x10d53}, {0x10d74,0x10d54,0x10d74,0x10d54}, {0x10d75,0x10d55,0x10d75,0x10d55}, {0x10d76,0x10d56,0x10d76,0x10d56}, {0x10d77,0x10d57,0x10d77,0x10d57}, {0x10d78,0x10d58,0x10d78,0x10d58},
{0x10d79,0x10d59,0x10d79,0x10d59}, {0x10d7a,0x10d5a,0x10d7a,0x10d5a}, {0x10d7b,0x10d5b,0x10d7b,0x10d5b}, {0x10d7c,0x10d5c,0x10d7c,0x10d5c}, {0x10d7d,0x10d5d,0x10d7d,0x10d5d}, {0x10d7e,0x10d5e,0x10d7e,0x10d5e},
{0x10d7f,0x10d5f,0x10d7f,0x10d5f}, {0x10d80,0x10d60,0x10d80,0x10d60}, {0x10d81,0x10d61,0x10d81,0x10d61}, {0x10d82,0x10d62,0x10d82,0x10d62}, {0x10d83,0x10d63,0x10d83,0x10d63}, {0x10d84,0x10d64,0x10d84,0x10d64},
{0x10d85,0x10d65,0x10d85,0x10d65}, {0x118a0,0x118a0,0x118c0,0x118a0}, {0x118a1,0x118a1,0x118c1,0x118a1}, {0x118a2,0x118a2,0x118c2,0x118a2}, {0x118a3,0x118a3,0x118c3,0x118a3}, {0x118a4,0x118a4,0x118c4,0x118a4},
{0x118a5,0x118a5,0x118c5,0x118a5}, {0x118a6,0x118a6,0x118c6,0x118a6}, {0x118a7,0x118a7,0x118c7,0x118a7}, {0x118a8,0x118a8,0x118c8,0x118a8}, {0x118a9,0x118a9,0x118c9,0x118a9}, {0x118aa,0x118aa,0x118ca,0x118aa},
{0x118ab,0x118ab,0x118cb,0x118ab}, {0x118ac,0x118ac,0x118cc,0x118ac}, {0x118ad,0x118ad,0x118cd,0x118ad}, {0x118ae,0x118ae,0x118ce,0x118ae}, {0x118af,0x118af,0x118cf,0x118af}, {0x118b0,0x118b0,0x118d0,0x118b0},
{0x118b1,0x118b1,0x118d1,0x118b1}, {0x118b2,0x118b2,0x118d2,0x118b2}, {0x118b3,0x118b3,0x118d3,0x118b3}, {0x118b4,0x118b4,0x118d4,0x118b4}, {0x118b5,0x118b5,0x118d5,0x118b5}, {0x118b6,0x118b6,0x118d6,0x118b6},
{0x118b7,0x118b7,0x118d7,0x118b7}, {0x118b8,0x118b8,0x118d8,0x118b8}, {0x118b9,0x118b9,0x118d9,0x118b9}, {0x118ba,0x118ba,0x118da,0x118ba}, {0x118bb,0x118bb,0x118db,0x118bb}, {0x118bc,0x118bc,0x118dc,0x118bc},
{0x118bd,0x118bd,0x118dd,0x118bd}, {0x118be,0x118be,0x118de,0x118be}, {0x118bf,0x118bf,0x118df,0x118bf}, {0x118c0,0x118a0,0x118c0,0x118a0}, {0x118c1,0x118a1,0x118c1,0x118a1}, {0x118c2,0x118a2,0x118c2,0x118a2},
{0x118c3,0x118a3,0x118c3,0x118a3}, {0x118c4,0x118a4,0x118c4,0x118a4}, {0x118c5,0x118a5,0x118c5,0x118a5}, {0x118c6,0x118a6,0x118c6,0x118a6}, {0x118c7,0x118a7,0x118c7,0x118a7}, {0x118c8,0x118a8,0x118c8,0x118a8},
{0x118c9,0x118a9,0x118c9,0x118a9}, {0x118ca,0x118aa,0x118ca,0x118aa}, {0x118cb,0x118ab,0x118cb,0x118ab}, {0x118cc,0x118ac,0x118cc,0x118ac}, {0x118cd,0x118ad,0x118cd,0x118ad}, {0x118ce,0x118ae,0x118ce,0x118ae},
{0x118cf,0x118af,0x118cf,0x118af}, {0x118d0,0x118b0,0x118d0,0x118b0}, {0x118d1,0x118b1,0x118d1,0x118b1}, {0x118d2,0x118b2,0x118d2,0x118b2}, {0x118d3,0x118b3,0x118d3,0x118b3}, {0x118d4,0x118b4,0x118d4,0x118b4},
{0x118d5,0x118b5,0x118d5,0x118b5}, {0x118d6,0x118b6,0x118d6,0x118b6}, {0x118d7,0x118b7,0x118d7,0x118b7}, {0x118d8,0x118b8,0x118d8,0x118b8}, {0x118d9,0x118b9,0x118d9,0x118b9}, {0x118da,0x118ba,0x118da,0x118ba},
{0x118db,0x118bb,0x118db,0x118bb}, {0x118dc,0x118bc,0x118dc,0x118bc}, {0x118dd,0x118bd,0x118dd,0x118bd}, {0x118de,0x118be,0x118de,0x118be}, {0x118df,0x118bf,0x118df,0x118bf}, {0x16e40,0x16e40,0x16e60,0x16e40},
{0x16e41,0x16e41,0x16e61,0x16e41}, {0x16e42,0x16e42,0x16e62,0x16e42}, {0x16e43,0x16e43,0x16e63,0x16e43}, {0x16e44,0x16e44,0x16e64,0x16e44}, {0x16e45,0x16e45,0x16e65,0x16e45}, {0x16e46,0x16e46,0x16e66,0x16e46},
{0x16e47,0x16e47,0x16e67,0x16e47}, {0x16e48,0x16e48,0x16e68,0x16e48}, {0x16e49,0x16e49,0x16e69,0x16e49}, {0x16e4a,0x16e4a,0x16e6a,0x16e4a}, {0x16e4b,0x16e4b,0x16e6b,0x16e4b}, {0x16e4c,0x16e4c,0x16e6c,0x16e4c},
{0x16e4d,0x16e4d,0x16e6d,0x16e4d}, {0x16e4e,0x16e4e,0x16e6e,0x16e4e}, {0x16e4f,0x16e4f,0x16e6f,0x16e4f}, {0x16e50,0x16e50,0x16e70,0x16e50}, {0x16e51,0x16e51,0x16e71,0x16e51}, {0x16e52,0x16e52,0x16e72,0x16e52},
{0x16e53,0x16e53,0x16e73,0x16e53}, {0x16e54,0x16e54,0x16e74,0x16e54}, {0x16e55,0x16e55,0x16e75,0x16e55}, {0x16e56,0x16e56,0x16e76,0x16e56}, {0x16e57,0x16e57,0x16e77,0x16e57}, {0x16e58,0x16e58,0x16e78,0x16e58},
{0x16e59,0x16e59,0x16e79,0x16e59}, {0x16e5a,0x16e5a,0x16e7a,0x16e5a}, {0x16e5b,0x16e5b,0x16e7b,0x16e5b}, {0x16e5c,0x16e5c,0x16e7c,0x16e5c}, {0x16e5d,0x16e5d,0x16e7d,0x16e5d}, {0x16e5e,0x16e5e,0x16e7e,0x16e5e},
{0x16e5f,0x16e5f,0x16e7f,0x16e5f}, {0x16e60,0x16e40,0x16e60,0x16e40}, {0x16e61,0x16e41,0x16e61,0x16e41}, {0x16e62,0x16e42,0x16e62,0x16e42}, {0x16e63,0x16e43,0x16e63,0x16e43}, {0x16e64,0x16e44,0x16e64,0x16e44},
{0x16e65,0x16e45,0x16e65,0x16e45}, {0x16e66,0x16e46,0x16e66,0x16e46}, {0x16e67,0x16e47,0x16e67,0x16e47}, {0x16e68,0x16e48,0x16e68,0x16e48}, {0x16e69,0x16e49,0x16e69,0x16e49}, {0x16e6a,0x16e4a,0x16e6a,0x16e4a},
{0x16e6b,0x16e4b,0x16e6b,0x16e4b}, {0x16e6c,0x16e4c,0x16e6c,0x16e4c}, {0x16e6d,0x16e4d,0x16e6d,0x16e4d}, {0x16e6e,0x16e4e,0x16e6e,0x16e4e}, {0x16e6f,0x16e4f,0x16e6f,0x16e4f}, {0x16e70,0x16e50,0x16e70,0x16e50},
{0x16e71,0x16e51,0x16e71,0x16e51}, {0x16e72,0x16e52,0x16e72,0x16e52}, {0x16e73,0x16e53,0x16e73,0x16e53}, {0x16e74,0x16e54,0x16e74,0x16e54}, {0x16e75,0x16e55,0x16e75,0x16e55}, {0x16e76,0x16e56,0x16e76,0x16e56},
{0x16e77,0x16e57,0x16e77,0x16e57}, {0x16e78,0x16e58,0x16e78,0x16e58}, {0x16e79,0x16e59,0x16e79,0x16e59}, {0x16e7a,0x16e5a,0x16e7a,0x16e5a}, {0x16e7b,0x16e5b,0x16e7b,0x16e5b}, {0x16e7c,0x16e5c,0x16e7c,0x16e5c},
{0x16e7d,0x16e5d,0x16e7d,0x16e5d}, {0x16e7e,0x16e5e,0x16e7e,0x16e5e}, {0x16e7f,0x16e5f,0x16e7f,0x16e5f}, {0x1e900,0x1e900,0x1e922,0x1e900}, {0x1e901,0x1e901,0x1e923,0x1e901}, {0x1e902,0x1e902,0x1e924,0x1e902},
{0x1e903,0x1e903,0x1e925,0x1e903}, {0x1e904,0x1e904,0x1e926,0x1e904}, {0x1e905,0x1e905,0x1e927,0x1e905}, {0x1e906,0x1e906,0x1e928,0x1e906}, {0x1e907,0x1e907,0x1e929,0x1e907}, {0x1e908,0x1e908,0x1e92a,0x1e908},
{0x1e909,0x1e909,0x1e92b,0x1e909}, {0x1e90a,0x1e90a,0x1e92c,0x1e90a}, {0x1e90b,0x1e90b,0x1e92d,0x1e90b}, {0x1e90c,0x1e90c,0x1e92e,0x1e90c}, {0x1e90d,0x1e90d,0x1e92f,0x1e90d}, {0x1e90e,0x1e90e,0x1e930,0x1e90e},
{0x1e90f,0x1e90f,0x1e931,0x1e90f}, {0x1e910,0x1e910,0x1e932,0x1e910}, {0x1e911,0x1e911,0x1e933,0x1e911}, {0x1e912,0x1e912,0x1e934,0x1e912}, {0x1e913,0x1e913,0x1e935,0x1e913}, {0x1e914,0x1e914,0x1e936,0x1e914},
{0x1e915,0x1e915,0x1e937,0x1e915}, {0x1e916,0x1e916,0x1e938,0x1e916}, {0x1e917,0x1e917,0x1e939,0x1e917}, {0x1e918,0x1e918,0x1e93a,0x1e918}, {0x1e919,0x1e919,0x1e93b,0x1e919}, {0x1e91a,0x1e91a,0x1e93c,0x1e91a},
{0x1e91b,0x1e91b,0x1e93d,0x1e91b}, {0x1e91c,0x1e91c,0x1e93e,0x1e91c}, {0x1e91d,0x1e91d,0x1e93f,0x1e91d}, {0x1e91e,0x1e91e,0x1e940,0x1e91e}, {0x1e91f,0x1e91f,0x1e941,0x1e91f}, {0x1e920,0x1e920,0x1e942,0x1e920},
{0x1e921,0x1e921,0x1e943,0x1e921}, {0x1e922,0x1e900,0x1e922,0x1e900}, {0x1e923,0x1e901,0x1e923,0x1e901}, {0x1e924,0x1e902,0x1e924,0x1e902}, {0x1e925,0x1e903,0x1e925,0x1e903}, {0x1e926,0x1e904,0x1e926,0x1e904},
{0x1e927,0x1e905,0x1e927,0x1e905}, {0x1e928,0x1e906,0x1e928,0x1e906}, {0x1e929,0x1e907,0x1e929,0x1e907}, {0x1e92a,0x1e908,0x1e92a,0x1e908}, {0x1e92b,0x1e909,0x1e92b,0x1e909}, {0x1e92c,0x1e90a,0x1e92c,0x1e90a},
{0x1e92d,0x1e90b,0x1e92d,0x1e90b}, {0x1e92e,0x1e90c,0x1e92e,0x1e90c}, {0x1e92f,0x1e90d,0x1e92f,0x1e90d}, {0x1e930,0x1e90e,0x1e930,0x1e90e}, {0x1e931,0x1e90f,0x1e931,0x1e90f}, {0x1e932,0x1e910,0x1e932,0x1e910},
{0x1e933,0x1e911,0x1e933,0x1e911}, {0x1e934,0x1e912,0x1e934,0x1e912}, {0x1e935,0x1e913,0x1e935,0x1e913}, {0x1e936,0x1e914,0x1e936,0x1e914}, {0x1e937,0x1e915,0x1e937,0x1e915}, {0x1e938,0x1e916,0x1e938,0x1e916},
{0x1e939,0x1e917,0x1e939,0x1e917}, {0x1e93a,0x1e918,0x1e93a,0x1e918}, {0x1e93b,0x1e919,0x1e93b,0x1e919}, {0x1e93c,0x1e91a,0x1e93c,0x1e91a}, {0x1e93d,0x1e91b,0x1e93d,0x1e91b}, {0x1e93e,0x1e91c,0x1e93e,0x1e91c},
{0x1e93f,0x1e91d,0x1e93f,0x1e91d}, {0x1e940,0x1e91e,0x1e940,0x1e91e}, {0x1e941,0x1e91f,0x1e941,0x1e91f}, {0x1e942,0x1e920,0x1e942,0x1e920}, {0x1e943,0x1e921,0x1e943,0x1e921}
    };
    const size_t CASE_ROW_COUNT = 2933;
    const PairRow PAIR_ROWS[] = {
{0x3c,0x338,0x226e}, {0x3d,0x338,0x2260}, {0x3e,0x338,0x226f}, {0x41,0x300,0xc0}, {0x41,0x301,0xc1}, {0x41,0x302,0xc2},
{0x41,0x303,0xc3}, {0x41,0x304,0x100}, {0x41,0x306,0x102}, {0x41,0x307,0x226}, {0x41,0x308,0xc4}, {0x41,0x309,0x1ea2},
{0x41,0x30a,0xc5}, {0x41,0x30c,0x1cd}, {0x41,0x30f,0x200}, {0x41,0x311,0x202}, {0x41,0x323,0x1ea0}, {0x41,0x325,0x1e00},
{0x41,0x328,0x104}, {0x42,0x307,0x1e02}, {0x42,0x323,0x1e04}, {0x42,0x331,0x1e06}, {0x43,0x301,0x106}, {0x43,0x302,0x108},
{0x43,0x307,0x10a}, {0x43,0x30c,0x10c}, {0x43,0x327,0xc7}, {0x44,0x307,0x1e0a}, {0x44,0x30c,0x10e}, {0x44,0x323,0x1e0c},
{0x44,0x327,0x1e10}, {0x44,0x32d,0x1e12}, {0x44,0x331,0x1e0e}, {0x45,0x300,0xc8}, {0x45,0x301,0xc9}, {0x45,0x302,0xca},
{0x45,0x303,0x1ebc}, {0x45,0x304,0x112}, {0x45,0x306,0x114}, {0x45,0x307,0x116}, {0x45,0x308,0xcb}, {0x45,0x309,0x1eba},
{0x45,0x30c,0x11a}, {0x45,0x30f,0x204}, {0x45,0x311,0x206}, {0x45,0x323,0x1eb8}, {0x45,0x327,0x228}, {0x45,0x328,0x118},
{0x45,0x32d,0x1e18}, {0x45,0x330,0x1e1a}, {0x46,0x307,0x1e1e}, {0x47,0x301,0x1f4}, {0x47,0x302,0x11c}, {0x47,0x304,0x1e20},
{0x47,0x306,0x11e}, {0x47,0x307,0x120}, {0x47,0x30c,0x1e6}, {0x47,0x327,0x122}, {0x48,0x302,0x124}, {0x48,0x307,0x1e22},
{0x48,0x308,0x1e26}, {0x48,0x30c,0x21e}, {0x48,0x323,0x1e24}, {0x48,0x327,0x1e28}, {0x48,0x32e,0x1e2a}, {0x49,0x300,0xcc},
{0x49,0x301,0xcd}, {0x49,0x302,0xce}, {0x49,0x303,0x128}, {0x49,0x304,0x12a}, {0x49,0x306,0x12c}, {0x49,0x307,0x130},
{0x49,0x308,0xcf}, {0x49,0x309,0x1ec8}, {0x49,0x30c,0x1cf}, {0x49,0x30f,0x208}, {0x49,0x311,0x20a}, {0x49,0x323,0x1eca},
{0x49,0x328,0x12e}, {0x49,0x330,0x1e2c}, {0x4a,0x302,0x134}, {0x4b,0x301,0x1e30}, {0x4b,0x30c,0x1e8}, {0x4b,0x323,0x1e32},
{0x4b,0x327,0x136}, {0x4b,0x331,0x1e34}, {0x4c,0x301,0x139}, {0x4c,0x30c,0x13d}, {0x4c,0x323,0x1e36}, {0x4c,0x327,0x13b},
{0x4c,0x32d,0x1e3c}, {0x4c,0x331,0x1e3a}, {0x4d,0x301,0x1e3e}, {0x4d,0x307,0x1e40}, {0x4d,0x323,0x1e42}, {0x4e,0x300,0x1f8},
{0x4e,0x301,0x143}, {0x4e,0x303,0xd1}, {0x4e,0x307,0x1e44}, {0x4e,0x30c,0x147}, {0x4e,0x323,0x1e46}, {0x4e,0x327,0x145},
{0x4e,0x32d,0x1e4a}, {0x4e,0x331,0x1e48}, {0x4f,0x300,0xd2}, {0x4f,0x301,0xd3}, {0x4f,0x302,0xd4}, {0x4f,0x303,0xd5},
{0x4f,0x304,0x14c}, {0x4f,0x306,0x14e}, {0x4f,0x307,0x22e}, {0x4f,0x308,0xd6}, {0x4f,0x309,0x1ece}, {0x4f,0x30b,0x150},
{0x4f,0x30c,0x1d1}, {0x4f,0x30f,0x20c}, {0x4f,0x311,0x20e}, {0x4f,0x31b,0x1a0}, {0x4f,0x323,0x1ecc}, {0x4f,0x328,0x1ea},
{0x50,0x301,0x1e54}, {0x50,0x307,0x1e56}, {0x52,0x301,0x154}, {0x52,0x307,0x1e58}, {0x52,0x30c,0x158}, {0x52,0x30f,0x210},
{0x52,0x311,0x212}, {0x52,0x323,0x1e5a}, {0x52,0x327,0x156}, {0x52,0x331,0x1e5e}, {0x53,0x301,0x15a}, {0x53,0x302,0x15c},
{0x53,0x307,0x1e60}, {0x53,0x30c,0x160}, {0x53,0x323,0x1e62}, {0x53,0x326,0x218}, {0x53,0x327,0x15e}, {0x54,0x307,0x1e6a},
{0x54,0x30c,0x164}, {0x54,0x323,0x1e6c}, {0x54,0x326,0x21a}, {0x54,0x327,0x162}, {0x54,0x32d,0x1e70}, {0x54,0x331,0x1e6e},
{0x55,0x300,0xd9}, {0x55,0x301,0xda}, {0x55,0x302,0xdb}, {0x55,0x303,0x168}, {0x55,0x304,0x16a}, {0x55,0x306,0x16c},
{0x55,0x308,0xdc}, {0x55,0x309,0x1ee6}, {0x55,0x30a,0x16e}, {0x55,0x30b,0x170}, {0x55,0x30c,0x1d3}, {0x55,0x30f,0x214},
{0x55,0x311,0x216}, {0x55,0x31b,0x1af}, {0x55,0x323,0x1ee4}, {0x55,0x324,0x1e72}, {0x55,0x328,0x172}, {0x55,0x32d,0x1e76},
{0x55,0x330,0x1e74}, {0x56,0x303,0x1e7c}, {0x56,0x323,0x1e7e}, {0x57,0x300,0x1e80}, {0x57,0x301,0x1e82}, {0x57,0x302,0x174},
{0x57,0x307,0x1e86}, {0x57,0x308,0x1e84}, {0x57,0x323,0x1e88}, {0x58,0x307,0x1e8a}, {0x58,0x308,0x1e8c}, {0x59,0x300,0x1ef2},
{0x59,0x301,0xdd}, {0x59,0x302,0x176}, {0x59,0x303,0x1ef8}, {0x59,0x304,0x232}, {0x59,0x307,0x1e8e}, {0x59,0x308,0x178},
{0x59,0x309,0x1ef6}, {0x59,0x323,0x1ef4}, {0x5a,0x301,0x179}, {0x5a,0x302,0x1e90}, {0x5a,0x307,0x17b}, {0x5a,0x30c,0x17d},
{0x5a,0x323,0x1e92}, {0x5a,0x331,0x1e94}, {0x61,0x300,0xe0}, {0x61,0x301,0xe1}, {0x61,0x302,0xe2}, {0x61,0x303,0xe3},
{0x61,0x304,0x101}, {0x61,0x306,0x103}, {0x61,0x307,0x227}, {0x61,0x308,0xe4}, {0x61,0x309,0x1ea3}, {0x61,0x30a,0xe5},
{0x61,0x30c,0x1ce}, {0x61,0x30f,0x201}, {0x61,0x311,0x203}, {0x61,0x323,0x1ea1}, {0x61,0x325,0x1e01}, {0x61,0x328,0x105},
{0x62,0x307,0x1e03}, {0x62,0x323,0x1e05}, {0x62,0x331,0x1e07}, {0x63,0x301,0x107}, {0x63,0x302,0x109}, {0x63,0x307,0x10b},
{0x63,0x30c,0x10d}, {0x63,0x327,0xe7}, {0x64,0x307,0x1e0b}, {0x64,0x30c,0x10f}, {0x64,0x323,0x1e0d}, {0x64,0x327,0x1e11},
{0x64,0x32d,0x1e13}, {0x64,0x331,0x1e0f}, {0x65,0x300,0xe8}, {0x65,0x301,0xe9}, {0x65,0x302,0xea}, {0x65,0x303,0x1ebd},
{0x65,0x304,0x113}, {0x65,0x306,0x115}, {0x65,0x307,0x117}, {0x65,0x308,0xeb}, {0x65,0x309,0x1ebb}, {0x65,0x30c,0x11b},
{0x65,0x30f,0x205}, {0x65,0x311,0x207}, {0x65,0x323,0x1eb9}, {0x65,0x327,0x229}, {0x65,0x328,0x119}, {0x65,0x32d,0x1e19},
{0x65,0x330,0x1e1b}, {0x66,0x307,0x1e1f}, {0x67,0x301,0x1f5}, {0x67,0x302,0x11d}, {0x67,0x304,0x1e21}, {0x67,0x306,0x11f},
{0x67,0x307,0x121}, {0x67,0x30c,0x1e7}, {0x67,0x327,0x123}, {0x68,0x302,0x125}, {0x68,0x307,0x1e23}, {0x68,0x308,0x1e27},
{0x68,0x30c,0x21f}, {0x68,0x323,0x1e25}, {0x68,0x327,0x1e29}, {0x68,0x32e,0x1e2b}, {0x68,0x331,0x1e96}, {0x69,0x300,0xec},
{0x69,0x301,0xed}, {0x69,0x302,0xee}, {0x69,0x303,0x129}, {0x69,0x304,0x12b}, {0x69,0x306,0x12d}, {0x69,0x308,0xef},
{0x69,0x309,0x1ec9}, {0x69,0x30c,0x1d0}, {0x69,0x30f,0x209}, {0x69,0x311,0x20b}, {0x69,0x323,0x1ecb}, {0x69,0x328,0x12f},
{0x69,0x330,0x1e2d}, {0x6a,0x302,0x135}, {0x6a,0x30c,0x1f0}, {0x6b,0x301,0x1e31}, {0x6b,0x30c,0x1e9}, {0x6b,0x323,0x1e33},
{0x6b,0x327,0x137}, {0x6b,0x331,0x1e35}, {0x6c,0x301,0x13a}, {0x6c,0x30c,0x13e}, {0x6c,0x323,0x1e37}, {0x6c,0x327,0x13c},
{0x6c,0x32d,0x1e3d}, {0x6c,0x331,0x1e3b}, {0x6d,0x301,0x1e3f}, {0x6d,0x307,0x1e41}, {0x6d,0x323,0x1e43}, {0x6e,0x300,0x1f9},
{0x6e,0x301,0x144}, {0x6e,0x303,0xf1}, {0x6e,0x307,0x1e45}, {0x6e,0x30c,0x148}, {0x6e,0x323,0x1e47}, {0x6e,0x327,0x146},
{0x6e,0x32d,0x1e4b}, {0x6e,0x331,0x1e49}, {0x6f,0x300,0xf2}, {0x6f,0x301,0xf3}, {0x6f,0x302,0xf4}, {0x6f,0x303,0xf5},
{0x6f,0x304,0x14d}, {0x6f,0x306,0x14f}, {0x6f,0x307,0x22f}, {0x6f,0x308,0xf6}, {0x6f,0x309,0x1ecf}, {0x6f,0x30b,0x151},
{0x6f,0x30c,0x1d2}, {0x6f,0x30f,0x20d}, {0x6f,0x311,0x20f}, {0x6f,0x31b,0x1a1}, {0x6f,0x323,0x1ecd}, {0x6f,0x328,0x1eb},
{0x70,0x301,0x1e55}, {0x70,0x307,0x1e57}, {0x72,0x301,0x155}, {0x72,0x307,0x1e59}, {0x72,0x30c,0x159}, {0x72,0x30f,0x211},
{0x72,0x311,0x213}, {0x72,0x323,0x1e5b}, {0x72,0x327,0x157}, {0x72,0x331,0x1e5f}, {0x73,0x301,0x15b}, {0x73,0x302,0x15d},
{0x73,0x307,0x1e61}, {0x73,0x30c,0x161}, {0x73,0x323,0x1e63}, {0x73,0x326,0x219}, {0x73,0x327,0x15f}, {0x74,0x307,0x1e6b},
{0x74,0x308,0x1e97}, {0x74,0x30c,0x165}, {0x74,0x323,0x1e6d}, {0x74,0x326,0x21b}, {0x74,0x327,0x163}, {0x74,0x32d,0x1e71},
{0x74,0x331,0x1e6f}, {0x75,0x300,0xf9}, {0x75,0x301,0xfa}, {0x75,0x302,0xfb}, {0x75,0x303,0x169}, {0x75,0x304,0x16b},
{0x75,0x306,0x16d}, {0x75,0x308,0xfc}, {0x75,0x309,0x1ee7}, {0x75,0x30a,0x16f}, {0x75,0x30b,0x171}, {0x75,0x30c,0x1d4},
{0x75,0x30f,0x215}, {0x75,0x311,0x217}, {0x75,0x31b,0x1b0}, {0x75,0x323,0x1ee5}, {0x75,0x324,0x1e73}, {0x75,0x328,0x173},
{0x75,0x32d,0x1e77}, {0x75,0x330,0x1e75}, {0x76,0x303,0x1e7d}, {0x76,0x323,0x1e7f}, {0x77,0x300,0x1e81}, {0x77,0x301,0x1e83},
{0x77,0x302,0x175}, {0x77,0x307,0x1e87}, {0x77,0x308,0x1e85}, {0x77,0x30a,0x1e98}, {0x77,0x323,0x1e89}, {0x78,0x307,0x1e8b},
{0x78,0x308,0x1e8d}, {0x79,0x300,0x1ef3}, {0x79,0x301,0xfd}, {0x79,0x302,0x177}, {0x79,0x303,0x1ef9}, {0x79,0x304,0x233},
{0x79,0x307,0x1e8f}, {0x79,0x308,0xff}, {0x79,0x309,0x1ef7}, {0x79,0x30a,0x1e99}, {0x79,0x323,0x1ef5}, {0x7a,0x301,0x17a},
{0x7a,0x302,0x1e91}, {0x7a,0x307,0x17c}, {0x7a,0x30c,0x17e}, {0x7a,0x323,0x1e93}, {0x7a,0x331,0x1e95}, {0xa8,0x300,0x1fed},
{0xa8,0x301,0x385}, {0xa8,0x342,0x1fc1}, {0xc2,0x300,0x1ea6}, {0xc2,0x301,0x1ea4}, {0xc2,0x303,0x1eaa}, {0xc2,0x309,0x1ea8},
{0xc4,0x304,0x1de}, {0xc5,0x301,0x1fa}, {0xc6,0x301,0x1fc}, {0xc6,0x304,0x1e2}, {0xc7,0x301,0x1e08}, {0xca,0x300,0x1ec0},
{0xca,0x301,0x1ebe}, {0xca,0x303,0x1ec4}, {0xca,0x309,0x1ec2}, {0xcf,0x301,0x1e2e}, {0xd4,0x300,0x1ed2}, {0xd4,0x301,0x1ed0},
{0xd4,0x303,0x1ed6}, {0xd4,0x309,0x1ed4}, {0xd5,0x301,0x1e4c}, {0xd5,0x304,0x22c}, {0xd5,0x308,0x1e4e}, {0xd6,0x304,0x22a},
{0xd8,0x301,0x1fe}, {0xdc,0x300,0x1db}, {0xdc,0x301,0x1d7}, {0xdc,0x304,0x1d5}, {0xdc,0x30c,0x1d9}, {0xe2,0x300,0x1ea7},
{0xe2,0x301,0x1ea5}, {0xe2,0x303,0x1eab}, {0xe2,0x309,0x1ea9}, {0xe4,0x304,0x1df}, {0xe5,0x301,0x1fb}, {0xe6,0x301,0x1fd},
{0xe6,0x304,0x1e3}, {0xe7,0x301,0x1e09}, {0xea,0x300,0x1ec1}, {0xea,0x301,0x1ebf}, {0xea,0x303,0x1ec5}, {0xea,0x309,0x1ec3},
{0xef,0x301,0x1e2f}, {0xf4,0x300,0x1ed3}, {0xf4,0x301,0x1ed1}, {0xf4,0x303,0x1ed7}, {0xf4,0x309,0x1ed5}, {0xf5,0x301,0x1e4d},
{0xf5,0x304,0x22d}, {0xf5,0x308,0x1e4f}, {0xf6,0x304,0x22b}, {0xf8,0x301,0x1ff}, {0xfc,0x300,0x1dc}, {0xfc,0x301,0x1d8},
{0xfc,0x304,0x1d6}, {0xfc,0x30c,0x1da}, {0x102,0x300,0x1eb0}, {0x102,0x301,0x1eae}, {0x102,0x303,0x1eb4}, {0x102,0x309,0x1eb2},
{0x103,0x300,0x1eb1}, {0x103,0x301,0x1eaf}, {0x103,0x303,0x1eb5}, {0x103,0x309,0x1eb3}, {0x112,0x300,0x1e14}, {0x112,0x301,0x1e16},
{0x113,0x300,0x1e15}, {0x113,0x301,0x1e17}, {0x14c,0x300,0x1e50}, {0x14c,0x301,0x1e52}, {0x14d,0x300,0x1e51}, {0x14d,0x301,0x1e53},
{0x15a,0x307,0x1e64}, {0x15b,0x307,0x1e65}, {0x160,0x307,0x1e66}, {0x161,0x307,0x1e67}, {0x168,0x301,0x1e78}, {0x169,0x301,0x1e79},
{0x16a,0x308,0x1e7a}, {0x16b,0x308,0x1e7b}, {0x17f,0x307,0x1e9b}, {0x1a0,0x300,0x1edc}, {0x1a0,0x301,0x1eda}, {0x1a0,0x303,0x1ee0},
{0x1a0,0x309,0x1ede}, {0x1a0,0x323,0x1ee2}, {0x1a1,0x300,0x1edd}, {0x1a1,0x301,0x1edb}, {0x1a1,0x303,0x1ee1}, {0x1a1,0x309,0x1edf},
{0x1a1,0x323,0x1ee3}, {0x1af,0x300,0x1eea}, {0x1af,0x301,0x1ee8}, {0x1af,0x303,0x1eee}, {0x1af,0x309,0x1eec}, {0x1af,0x323,0x1ef0},
{0x1b0,0x300,0x1eeb}, {0x1b0,0x301,0x1ee9}, {0x1b0,0x303,0x1eef}, {0x1b0,0x309,0x1eed}, {0x1b0,0x323,0x1ef1}, {0x1b7,0x30c,0x1ee},
{0x1ea,0x304,0x1ec}, {0x1eb,0x304,0x1ed}, {0x226,0x304,0x1e0}, {0x227,0x304,0x1e1}, {0x228,0x306,0x1e1c}, {0x229,0x306,0x1e1d},
{0x22e,0x304,0x230}, {0x22f,0x304,0x231}, {0x292,0x30c,0x1ef}, {0x308,0x301,0x344}, {0x391,0x300,0x1fba}, {0x391,0x301,0x386},
{0x391,0x304,0x1fb9}, {0x391,0x306,0x1fb8}, {0x391,0x313,0x1f08}, {0x391,0x314,0x1f09}, {0x391,0x345,0x1fbc}, {0x395,0x300,0x1fc8},
{0x395,0x301,0x388}, {0x395,0x313,0x1f18}, {0x395,0x314,0x1f19}, {0x397,0x300,0x1fca}, {0x397,0x301,0x389}, {0x397,0x313,0x1f28},
{0x397,0x314,0x1f29}, {0x397,0x345,0x1fcc}, {0x399,0x300,0x1fda}, {0x399,0x301,0x38a}, {0x399,0x304,0x1fd9}, {0x399,0x306,0x1fd8},
{0x399,0x308,0x3aa}, {0x399,0x313,0x1f38}, {0x399,0x314,0x1f39}, {0x39f,0x300,0x1ff8}, {0x39f,0x301,0x38c}, {0x39f,0x313,0x1f48},
{0x39f,0x314,0x1f49}, {0x3a1,0x314,0x1fec}, {0x3a5,0x300,0x1fea}, {0x3a5,0x301,0x38e}, {0x3a5,0x304,0x1fe9}, {0x3a5,0x306,0x1fe8},
{0x3a5,0x308,0x3ab}, {0x3a5,0x314,0x1f59}, {0x3a9,0x300,0x1ffa}, {0x3a9,0x301,0x38f}, {0x3a9,0x313,0x1f68}, {0x3a9,0x314,0x1f69},
{0x3a9,0x345,0x1ffc}, {0x3ac,0x345,0x1fb4}, {0x3ae,0x345,0x1fc4}, {0x3b1,0x300,0x1f70}, {0x3b1,0x301,0x3ac}, {0x3b1,0x304,0x1fb1},
{0x3b1,0x306,0x1fb0}, {0x3b1,0x313,0x1f00}, {0x3b1,0x314,0x1f01}, {0x3b1,0x342,0x1fb6}, {0x3b1,0x345,0x1fb3}, {0x3b5,0x300,0x1f72},
{0x3b5,0x301,0x3ad}, {0x3b5,0x313,0x1f10}, {0x3b5,0x314,0x1f11}, {0x3b7,0x300,0x1f74}, {0x3b7,0x301,0x3ae}, {0x3b7,0x313,0x1f20},
{0x3b7,0x314,0x1f21}, {0x3b7,0x342,0x1fc6}, {0x3b7,0x345,0x1fc3}, {0x3b9,0x300,0x1f76}, {0x3b9,0x301,0x3af}, {0x3b9,0x304,0x1fd1},
{0x3b9,0x306,0x1fd0}, {0x3b9,0x308,0x3ca}, {0x3b9,0x313,0x1f30}, {0x3b9,0x314,0x1f31}, {0x3b9,0x342,0x1fd6}, {0x3bf,0x300,0x1f78},
{0x3bf,0x301,0x3cc}, {0x3bf,0x313,0x1f40}, {0x3bf,0x314,0x1f41}, {0x3c1,0x313,0x1fe4}, {0x3c1,0x314,0x1fe5}, {0x3c5,0x300,0x1f7a},
{0x3c5,0x301,0x3cd}, {0x3c5,0x304,0x1fe1}, {0x3c5,0x306,0x1fe0}, {0x3c5,0x308,0x3cb}, {0x3c5,0x313,0x1f50}, {0x3c5,0x314,0x1f51},
{0x3c5,0x342,0x1fe6}, {0x3c9,0x300,0x1f7c}, {0x3c9,0x301,0x3ce}, {0x3c9,0x313,0x1f60}, {0x3c9,0x314,0x1f61}, {0x3c9,0x342,0x1ff6},
{0x3c9,0x345,0x1ff3}, {0x3ca,0x300,0x1fd2}, {0x3ca,0x301,0x390}, {0x3ca,0x342,0x1fd7}, {0x3cb,0x300,0x1fe2}, {0x3cb,0x301,0x3b0},
{0x3cb,0x342,0x1fe7}, {0x3ce,0x345,0x1ff4}, {0x3d2,0x301,0x3d3}, {0x3d2,0x308,0x3d4}, {0x406,0x308,0x407}, {0x410,0x306,0x4d0},
{0x410,0x308,0x4d2}, {0x413,0x301,0x403}, {0x415,0x300,0x400}, {0x415,0x306,0x4d6}, {0x415,0x308,0x401}, {0x416,0x306,0x4c1},
{0x416,0x308,0x4dc}, {0x417,0x308,0x4de}, {0x418,0x300,0x40d}, {0x418,0x304,0x4e2}, {0x418,0x306,0x419}, {0x418,0x308,0x4e4},
{0x41a,0x301,0x40c}, {0x41e,0x308,0x4e6}, {0x423,0x304,0x4ee}, {0x423,0x306,0x40e}, {0x423,0x308,0x4f0}, {0x423,0x30b,0x4f2},
{0x427,0x308,0x4f4}, {0x42b,0x308,0x4f8}, {0x42d,0x308,0x4ec}, {0x430,0x306,0x4d1}, {0x430,0x308,0x4d3}, {0x433,0x301,0x453},
{0x435,0x300,0x450}, {0x435,0x306,0x4d7}, {0x435,0x308,0x451}, {0x436,0x306,0x4c2}, {0x436,0x308,0x4dd}, {0x437,0x308,0x4df},
{0x438,0x300,0x45d}, {0x438,0x304,0x4e3}, {0x438,0x306,0x439}, {0x438,0x308,0x4e5}, {0x43a,0x301,0x45c}, {0x43e,0x308,0x4e7},
{0x443,0x304,0x4ef}, {0x443,0x306,0x45e}, {0x443,0x308,0x4f1}, {0x443,0x30b,0x4f3}, {0x447,0x308,0x4f5}, {0x44b,0x308,0x4f9},
{0x44d,0x308,0x4ed}, {0x456,0x308,0x457}, {0x474,0x30f,0x476}, {0x475,0x30f,0x477}, {0x4d8,0x308,0x4da}, {0x4d9,0x308,0x4db},
{0x4e8,0x308,0x4ea}, {0x4e9,0x308,0x4eb}, {0x5d0,0x5b7,0xfb2e}, {0x5d0,0x5b8,0xfb2f}, {0x5d0,0x5bc,0xfb30}, {0x5d1,0x5bc,0xfb31},
{0x5d1,0x5bf,0xfb4c}, {0x5d2,0x5bc,0xfb32}, {0x5d3,0x5bc,0xfb33}, {0x5d4,0x5bc,0xfb34}, {0x5d5,0x5b9,0xfb4b}, {0x5d5,0x5bc,0xfb35},
{0x5d6,0x5bc,0xfb36}, {0x5d8,0x5bc,0xfb38}, {0x5d9,0x5b4,0xfb1d}, {0x5d9,0x5bc,0xfb39}, {0x5da,0x5bc,0xfb3a}, {0x5db,0x5bc,0xfb3b},
{0x5db,0x5bf,0xfb4d}, {0x5dc,0x5bc,0xfb3c}, {0x5de,0x5bc,0xfb3e}, {0x5e0,0x5bc,0xfb40}, {0x5e1,0x5bc,0xfb41}, {0x5e3,0x5bc,0xfb43},
{0x5e4,0x5bc,0xfb44}, {0x5e4,0x5bf,0xfb4e}, {0x5e6,0x5bc,0xfb46}, {0x5e7,0x5bc,0xfb47}, {0x5e8,0x5bc,0xfb48}, {0x5e9,0x5bc,0xfb49},
{0x5e9,0x5c1,0xfb2a}, {0x5e9,0x5c2,0xfb2b}, {0x5ea,0x5bc,0xfb4a}, {0x5f2,0x5b7,0xfb1f}, {0x627,0x653,0x622}, {0x627,0x654,0x623},
{0x627,0x655,0x625}, {0x648,0x654,0x624}, {0x64a,0x654,0x626}, {0x6c1,0x654,0x6c2}, {0x6d2,0x654,0x6d3}, {0x6d5,0x654,0x6c0},
{0x915,0x93c,0x958}, {0x916,0x93c,0x959}, {0x917,0x93c,0x95a}, {0x91c,0x93c,0x95b}, {0x921,0x93c,0x95c}, {0x922,0x93c,0x95d},
{0x928,0x93c,0x929}, {0x92b,0x93c,0x95e}, {0x92f,0x93c,0x95f}, {0x930,0x93c,0x931}, {0x933,0x93c,0x934}, {0x9a1,0x9bc,0x9dc},
{0x9a2,0x9bc,0x9dd}, {0x9af,0x9bc,0x9df}, {0x9c7,0x9be,0x9cb}, {0x9c7,0x9d7,0x9cc}, {0xa16,0xa3c,0xa59}, {0xa17,0xa3c,0xa5a},
{0xa1c,0xa3c,0xa5b}, {0xa2b,0xa3c,0xa5e}, {0xa32,0xa3c,0xa33}, {0xa38,0xa3c,0xa36}, {0xb21,0xb3c,0xb5c}, {0xb22,0xb3c,0xb5d},
{0xb47,0xb3e,0xb4b}, {0xb47,0xb56,0xb48}, {0xb47,0xb57,0xb4c}, {0xb92,0xbd7,0xb94}, {0xbc6,0xbbe,0xbca}, {0xbc6,0xbd7,0xbcc},
{0xbc7,0xbbe,0xbcb}, {0xc46,0xc56,0xc48}, {0xcbf,0xcd5,0xcc0}, {0xcc6,0xcc2,0xcca}, {0xcc6,0xcd5,0xcc7}, {0xcc6,0xcd6,0xcc8},
{0xcca,0xcd5,0xccb}, {0xd46,0xd3e,0xd4a}, {0xd46,0xd57,0xd4c}, {0xd47,0xd3e,0xd4b}, {0xdd9,0xdca,0xdda}, {0xdd9,0xdcf,0xddc},
{0xdd9,0xddf,0xdde}, {0xddc,0xdca,0xddd}, {0xf40,0xfb5,0xf69}, {0xf42,0xfb7,0xf43}, {0xf4c,0xfb7,0xf4d}, {0xf51,0xfb7,0xf52},
{0xf56,0xfb7,0xf57}, {0xf5b,0xfb7,0xf5c}, {0xf71,0xf72,0xf73}, {0xf71,0xf74,0xf75}, {0xf71,0xf80,0xf81}, {0xf90,0xfb5,0xfb9},
{0xf92,0xfb7,0xf93}, {0xf9c,0xfb7,0xf9d}, {0xfa1,0xfb7,0xfa2}, {0xfa6,0xfb7,0xfa7}, {0xfab,0xfb7,0xfac}, {0xfb2,0xf80,0xf76},
{0xfb3,0xf80,0xf78}, {0x1025,0x102e,0x1026}, {0x1b05,0x1b35,0x1b06}, {0x1b07,0x1b35,0x1b08}, {0x1b09,0x1b35,0x1b0a}, {0x1b0b,0x1b35,0x1b0c},
{0x1b0d,0x1b35,0x1b0e}, {0x1b11,0x1b35,0x1b12}, {0x1b3a,0x1b35,0x1b3b}, {0x1b3c,0x1b35,0x1b3d}, {0x1b3e,0x1b35,0x1b40}, {0x1b3f,0x1b35,0x1b41},
{0x1b42,0x1b35,0x1b43}, {0x1e36,0x304,0x1e38}, {0x1e37,0x304,0x1e39}, {0x1e5a,0x304,0x1e5c}, {0x1e5b,0x304,0x1e5d}, {0x1e62,0x307,0x1e68},
{0x1e63,0x307,0x1e69}, {0x1ea0,0x302,0x1eac}, {0x1ea0,0x306,0x1eb6}, {0x1ea1,0x302,0x1ead}, {0x1ea1,0x306,0x1eb7}, {0x1eb8,0x302,0x1ec6},
{0x1eb9,0x302,0x1ec7}, {0x1ecc,0x302,0x1ed8}, {0x1ecd,0x302,0x1ed9}, {0x1f00,0x300,0x1f02}, {0x1f00,0x301,0x1f04}, {0x1f00,0x342,0x1f06},
{0x1f00,0x345,0x1f80}, {0x1f01,0x300,0x1f03}, {0x1f01,0x301,0x1f05}, {0x1f01,0x342,0x1f07}, {0x1f01,0x345,0x1f81}, {0x1f02,0x345,0x1f82},
{0x1f03,0x345,0x1f83}, {0x1f04,0x345,0x1f84}, {0x1f05,0x345,0x1f85}, {0x1f06,0x345,0x1f86}, {0x1f07,0x345,0x1f87}, {0x1f08,0x300,0x1f0a},
{0x1f08,0x301,0x1f0c}, {0x1f08,0x342,0x1f0e}, {0x1f08,0x345,0x1f88}, {0x1f09,0x300,0x1f0b}, {0x1f09,0x301,0x1f0d}, {0x1f09,0x342,0x1f0f},
{0x1f09,0x345,0x1f89}, {0x1f0a,0x345,0x1f8a}, {0x1f0b,0x345,0x1f8b}, {0x1f0c,0x345,0x1f8c}, {0x1f0d,0x345,0x1f8d}, {0x1f0e,0x345,0x1f8e},
{0x1f0f,0x345,0x1f8f}, {0x1f10,0x300,0x1f12}, {0x1f10,0x301,0x1f14}, {0x1f11,0x300,0x1f13}, {0x1f11,0x301,0x1f15}, {0x1f18,0x300,0x1f1a},
{0x1f18,0x301,0x1f1c}, {0x1f19,0x300,0x1f1b}, {0x1f19,0x301,0x1f1d}, {0x1f20,0x300,0x1f22}, {0x1f20,0x301,0x1f24}, {0x1f20,0x342,0x1f26},
{0x1f20,0x345,0x1f90}, {0x1f21,0x300,0x1f23}, {0x1f21,0x301,0x1f25}, {0x1f21,0x342,0x1f27}, {0x1f21,0x345,0x1f91}, {0x1f22,0x345,0x1f92},
{0x1f23,0x345,0x1f93}, {0x1f24,0x345,0x1f94}, {0x1f25,0x345,0x1f95}, {0x1f26,0x345,0x1f96}, {0x1f27,0x345,0x1f97}, {0x1f28,0x300,0x1f2a},
{0x1f28,0x301,0x1f2c}, {0x1f28,0x342,0x1f2e}, {0x1f28,0x345,0x1f98}, {0x1f29,0x300,0x1f2b}, {0x1f29,0x301,0x1f2d}, {0x1f29,0x342,0x1f2f},
{0x1f29,0x345,0x1f99}, {0x1f2a,0x345,0x1f9a}, {0x1f2b,0x345,0x1f9b}, {0x1f2c,0x345,0x1f9c}, {0x1f2d,0x345,0x1f9d}, {0x1f2e,0x345,0x1f9e},
{0x1f2f,0x345,0x1f9f}, {0x1f30,0x300,0x1f32}, {0x1f30,0x301,0x1f34}, {0x1f30,0x342,0x1f36}, {0x1f31,0x300,0x1f33}, {0x1f31,0x301,0x1f35},
{0x1f31,0x342,0x1f37}, {0x1f38,0x300,0x1f3a}, {0x1f38,0x301,0x1f3c}, {0x1f38,0x342,0x1f3e}, {0x1f39,0x300,0x1f3b}, {0x1f39,0x301,0x1f3d},
{0x1f39,0x342,0x1f3f}, {0x1f40,0x300,0x1f42}, {0x1f40,0x301,0x1f44}, {0x1f41,0x300,0x1f43}, {0x1f41,0x301,0x1f45}, {0x1f48,0x300,0x1f4a},
{0x1f48,0x301,0x1f4c}, {0x1f49,0x300,0x1f4b}, {0x1f49,0x301,0x1f4d}, {0x1f50,0x300,0x1f52}, {0x1f50,0x301,0x1f54}, {0x1f50,0x342,0x1f56},
{0x1f51,0x300,0x1f53}, {0x1f51,0x301,0x1f55}, {0x1f51,0x342,0x1f57}, {0x1f59,0x300,0x1f5b}, {0x1f59,0x301,0x1f5d}, {0x1f59,0x342,0x1f5f},
{0x1f60,0x300,0x1f62}, {0x1f60,0x301,0x1f64}, {0x1f60,0x342,0x1f66}, {0x1f60,0x345,0x1fa0}, {0x1f61,0x300,0x1f63}, {0x1f61,0x301,0x1f65},
{0x1f61,0x342,0x1f67}, {0x1f61,0x345,0x1fa1}, {0x1f62,0x345,0x1fa2}, {0x1f63,0x345,0x1fa3}, {0x1f64,0x345,0x1fa4}, {0x1f65,0x345,0x1fa5},
{0x1f66,0x345,0x1fa6}, {0x1f67,0x345,0x1fa7}, {0x1f68,0x300,0x1f6a}, {0x1f68,0x301,0x1f6c}, {0x1f68,0x342,0x1f6e}, {0x1f68,0x345,0x1fa8},
{0x1f69,0x300,0x1f6b}, {0x1f69,0x301,0x1f6d}, {0x1f69,0x342,0x1f6f}, {0x1f69,0x345,0x1fa9}, {0x1f6a,0x345,0x1faa}, {0x1f6b,0x345,0x1fab},
{0x1f6c,0x345,0x1fac}, {0x1f6d,0x345,0x1fad}, {0x1f6e,0x345,0x1fae}, {0x1f6f,0x345,0x1faf}, {0x1f70,0x345,0x1fb2}, {0x1f74,0x345,0x1fc2},
{0x1f7c,0x345,0x1ff2}, {0x1fb6,0x345,0x1fb7}, {0x1fbf,0x300,0x1fcd}, {0x1fbf,0x301,0x1fce}, {0x1fbf,0x342,0x1fcf}, {0x1fc6,0x345,0x1fc7},
{0x1ff6,0x345,0x1ff7}, {0x1ffe,0x300,0x1fdd}, {0x1ffe,0x301,0x1fde}, {0x1ffe,0x342,0x1fdf}, {0x2190,0x338,0x219a}, {0x2192,0x338,0x219b},
{0x2194,0x338,0x21ae}, {0x21d0,0x338,0x21cd}, {0x21d2,0x338,0x21cf}, {0x21d4,0x338,0x21ce}, {0x2203,0x338,0x2204}, {0x2208,0x338,0x2209},
{0x220b,0x338,0x220c}, {0x2223,0x338,0x2224}, {0x2225,0x338,0x2226}, {0x223c,0x338,0x2241}, {0x2243,0x338,0x2244}, {0x2245,0x338,0x2247},
{0x2248,0x338,0x2249}, {0x224d,0x338,0x226d}, {0x2261,0x338,0x2262}, {0x2264,0x338,0x2270}, {0x2265,0x338,0x2271}, {0x2272,0x338,0x2274},
{0x2273,0x338,0x2275}, {0x2276,0x338,0x2278}, {0x2277,0x338,0x2279}, {0x227a,0x338,0x2280}, {0x227b,0x338,0x2281}, {0x227c,0x338,0x22e0},
{0x227d,0x338,0x22e1}, {0x2282,0x338,0x2284}, {0x2283,0x338,0x2285}, {0x2286,0x338,0x2288}, {0x2287,0x338,0x2289}, {0x2291,0x338,0x22e2},
{0x2292,0x338,0x22e3}, {0x22a2,0x338,0x22ac}, {0x22a8,0x338,0x22ad}, {0x22a9,0x338,0x22ae}, {0x22ab,0x338,0x22af}, {0x22b2,0x338,0x22ea},
{0x22b3,0x338,0x22eb}, {0x22b4,0x338,0x22ec}, {0x22b5,0x338,0x22ed}, {0x2add,0x338,0x2adc}, {0x3046,0x3099,0x3094}, {0x304b,0x3099,0x304c},
{0x304d,0x3099,0x304e}, {0x304f,0x3099,0x3050}, {0x3051,0x3099,0x3052}, {0x3053,0x3099,0x3054}, {0x3055,0x3099,0x3056}, {0x3057,0x3099,0x3058},
{0x3059,0x3099,0x305a}, {0x305b,0x3099,0x305c}, {0x305d,0x3099,0x305e}, {0x305f,0x3099,0x3060}, {0x3061,0x3099,0x3062}, {0x3064,0x3099,0x3065},
{0x3066,0x3099,0x3067}, {0x3068,0x3099,0x3069}, {0x306f,0x3099,0x3070}, {0x306f,0x309a,0x3071}, {0x3072,0x3099,0x3073}, {0x3072,0x309a,0x3074},
{0x3075,0x3099,0x3076}, {0x3075,0x309a,0x3077}, {0x3078,0x3099,0x3079}, {0x3078,0x309a,0x307a}, {0x307b,0x3099,0x307c}, {0x307b,0x309a,0x307d},
{0x309d,0x3099,0x309e}, {0x30a6,0x3099,0x30f4}, {0x30ab,0x3099,0x30ac}, {0x30ad,0x3099,0x30ae}, {0x30af,0x3099,0x30b0}, {0x30b1,0x3099,0x30b2},
{0x30b3,0x3099,0x30b4}, {0x30b5,0x3099,0x30b6}, {0x30b7,0x3099,0x30b8}, {0x30b9,0x3099,0x30ba}, {0x30bb,0x3099,0x30bc}, {0x30bd,0x3099,0x30be},
{0x30bf,0x3099,0x30c0}, {0x30c1,0x3099,0x30c2}, {0x30c4,0x3099,0x30c5}, {0x30c6,0x3099,0x30c7}, {0x30c8,0x3099,0x30c9}, {0x30cf,0x3099,0x30d0},
{0x30cf,0x309a,0x30d1}, {0x30d2,0x3099,0x30d3}, {0x30d2,0x309a,0x30d4}, {0x30d5,0x3099,0x30d6}, {0x30d5,0x309a,0x30d7}, {0x30d8,0x3099,0x30d9},
{0x30d8,0x309a,0x30da}, {0x30db,0x3099,0x30dc}, {0x30db,0x309a,0x30dd}, {0x30ef,0x3099,0x30f7}, {0x30f0,0x3099,0x30f8}, {0x30f1,0x3099,0x30f9},
{0x30f2,0x3099,0x30fa}, {0x30fd,0x3099,0x30fe}, {0xfb49,0x5c1,0xfb2c}, {0xfb49,0x5c2,0xfb2d}, {0x105d2,0x307,0x105c9}, {0x105da,0x307,0x105e4},
{0x11099,0x110ba,0x1109a}, {0x1109b,0x110ba,0x1109c}, {0x110a5,0x110ba,0x110ab}, {0x11131,0x11127,0x1112e}, {0x11132,0x11127,0x1112f}, {0x11347,0x1133e,0x1134b},
{0x11347,0x11357,0x1134c}, {0x11382,0x113c9,0x11383}, {0x11384,0x113bb,0x11385}, {0x1138b,0x113c2,0x1138e}, {0x11390,0x113c9,0x11391}, {0x113c2,0x113b8,0x113c7},
{0x113c2,0x113c2,0x113c5}, {0x113c2,0x113c9,0x113c8}, {0x114b9,0x114b0,0x114bc}, {0x114b9,0x114ba,0x114bb}, {0x114b9,0x114bd,0x114be}, {0x115b8,0x115af,0x115ba},
{0x115b9,0x115af,0x115bb}, {0x11935,0x11930,0x11938}, {0x1611e,0x1611e,0x16121}, {0x1611e,0x1611f,0x16123}, {0x1611e,0x16120,0x16125}, {0x1611e,0x16129,0x16122},
{0x16121,0x1611f,0x16126}, {0x16121,0x16120,0x16128}, {0x16122,0x1611f,0x16127}, {0x16129,0x1611f,0x16124}, {0x16d63,0x16d67,0x16d69}, {0x16d67,0x16d67,0x16d68},
{0x16d69,0x16d67,0x16d6a}, {0x1d157,0x1d165,0x1d15e}, {0x1d158,0x1d165,0x1d15f}, {0x1d15f,0x1d16e,0x1d160}, {0x1d15f,0x1d16f,0x1d161}, {0x1d15f,0x1d170,0x1d162},
{0x1d15f,0x1d171,0x1d163}, {0x1d15f,0x1d172,0x1d164}, {0x1d1b9,0x1d165,0x1d1bb}, {0x1d1ba,0x1d165,0x1d1bc}, {0x1d1bb,0x1d16e,0x1d1bd}, {0x1d1bb,0x1d16f,0x1d1bf},
{0x1d1bc,0x1d16e,0x1d1be}, {0x1d1bc,0x1d16f,0x1d1c0}
    };
    const size_t PAIR_ROW_COUNT = 1046;
    const ClassRow CLASS_ROWS[] = {
{0x0,0x1f,"Cc"}, {0x20,0x20,"Zs"}, {0x21,0x23,"Po"}, {0x24,0x24,"Sc"}, {0x25,0x27,"Po"}, {0x28,0x28,"Ps"},
{0x29,0x29,"Pe"}, {0x2a,0x2a,"Po"}, {0x2b,0x2b,"Sm"}, {0x2c,0x2c,"Po"}, {0x2d,0x2d,"Pd"}, {0x2e,0x2f,"Po"},
{0x30,0x39,"Nd"}, {0x3a,0x3b,"Po"}, {0x3c,0x3e,"Sm"}, {0x3f,0x40,"Po"}, {0x41,0x5a,"Lu"}, {0x5b,0x5b,"Ps"},
{0x5c,0x5c,"Po"}, {0x5d,0x5d,"Pe"}, {0x5e,0x5e,"Sk"}, {0x5f,0x5f,"Pc"}, {0x60,0x60,"Sk"}, {0x61,0x7a,"Ll"},
{0x7b,0x7b,"Ps"}, {0x7c,0x7c,"Sm"}, {0x7d,0x7d,"Pe"}, {0x7e,0x7e,"Sm"}, {0x7f,0x9f,"Cc"}, {0xa0,0xa0,"Zs"},
{0xa1,0xa1,"Po"}, {0xa2,0xa5,"Sc"}, {0xa6,0xa6,"So"}, {0xa7,0xa7,"Po"}, {0xa8,0xa8,"Sk"}, {0xa9,0xa9,"So"},
{0xaa,0xaa,"Lo"}, {0xab,0xab,"Pi"}, {0xac,0xac,"Sm"}, {0xad,0xad,"Cf"}, {0xae,0xae,"So"}, {0xaf,0xaf,"Sk"},
{0xb0,0xb0,"So"}, {0xb1,0xb1,"Sm"}, {0xb2,0xb3,"No"}, {0xb4,0xb4,"Sk"}, {0xb5,0xb5,"Ll"}, {0xb6,0xb7,"Po"},
{0xb8,0xb8,"Sk"}, {0xb9,0xb9,"No"}, {0xba,0xba,"Lo"}, {0xbb,0xbb,"Pf"}, {0xbc,0xbe,"No"}, {0xbf,0xbf,"Po"},
{0xc0,0xd6,"Lu"}, {0xd7,0xd7,"Sm"}, {0xd8,0xde,"Lu"}, {0xdf,0xf6,"Ll"}, {0xf7,0xf7,"Sm"}, {0xf8,0xff,"Ll"},
{0x100,0x100,"Lu"}, {0x101,0x101,"Ll"}, {0x102,0x102,"Lu"}, {0x103,0x103,"Ll"}, {0x104,0x104,"Lu"}, {0x105,0x105,"Ll"},
{0x106,0x106,"Lu"}, {0x107,0x107,"Ll"}, {0x108,0x108,"Lu"}, {0x109,0x109,"Ll"}, {0x10a,0x10a,"Lu"}, {0x10b,0x10b,"Ll"},
{0x10c,0x10c,"Lu"}, {0x10d,0x10d,"Ll"}, {0x10e,0x10e,"Lu"}, {0x10f,0x10f,"Ll"}, {0x110,0x110,"Lu"}, {0x111,0x111,"Ll"},
{0x112,0x112,"Lu"}, {0x113,0x113,"Ll"}, {0x114,0x114,"Lu"}, {0x115,0x115,"Ll"}, {0x116,0x116,"Lu"}, {0x117,0x117,"Ll"},
{0x118,0x118,"Lu"}, {0x119,0x119,"Ll"}, {0x11a,0x11a,"Lu"}, {0x11b,0x11b,"Ll"}, {0x11c,0x11c,"Lu"}, {0x11d,0x11d,"Ll"},
{0x11e,0x11e,"Lu"}, {0x11f,0x11f,"Ll"}, {0x120,0x120,"Lu"}, {0x121,0x121,"Ll"}, {0x122,0x122,"Lu"}, {0x123,0x123,"Ll"},
{0x124,0x124,"Lu"}, {0x125,0x125,"Ll"}, {0x126,0x126,"Lu"}, {0x127,0x127,"Ll"}, {0x128,0x128,"Lu"}, {0x129,0x129,"Ll"},
{0x12a,0x12a,"Lu"}, {0x12b,0x12b,"Ll"}, {0x12c,0x12c,"Lu"}, {0x12d,0x12d,"Ll"}, {0x12e,0x12e,"Lu"}, {0x12f,0x12f,"Ll"},
{0x130,0x130,"Lu"}, {0x131,0x131,"Ll"}, {0x132,0x132,"Lu"}, {0x133,0x133,"Ll"}, {0x134,0x134,"Lu"}, {0x135,0x135,"Ll"},
{0x136,0x136,"Lu"}, {0x137,0x138,"Ll"}, {0x139,0x139,"Lu"}, {0x13a,0x13a,"Ll"}, {0x13b,0x13b,"Lu"}, {0x13c,0x13c,"Ll"},
{0x13d,0x13d,"Lu"}, {0x13e,0x13e,"Ll"}, {0x13f,0x13f,"Lu"}, {0x140,0x140,"Ll"}, {0x141,0x141,"Lu"}, {0x142,0x142,"Ll"},
{0x143,0x143,"Lu"}, {0x144,0x144,"Ll"}, {0x145,0x145,"Lu"}, {0x146,0x146,"Ll"}, {0x147,0x147,"Lu"}, {0x148,0x149,"Ll"},
{0x14a,0x14a,"Lu"}, {0x14b,0x14b,"Ll"}, {0x14c,0x14c,"Lu"}, {0x14d,0x14d,"Ll"}, {0x14e,0x14e,"Lu"}, {0x14f,0x14f,"Ll"},
{0x150,0x150,"Lu"}, {0x151,0x151,"Ll"}, {0x152,0x152,"Lu"}, {0x153,0x153,"Ll"}, {0x154,0x154,"Lu"}, {0x155,0x155,"Ll"},
{0x156,0x156,"Lu"}, {0x157,0x157,"Ll"}, {0x158,0x158,"Lu"}, {0x159,0x159,"Ll"}, {0x15a,0x15a,"Lu"}, {0x15b,0x15b,"Ll"},
{0x15c,0x15c,"Lu"}, {0x15d,0x15d,"Ll"}, {0x15e,0x15e,"Lu"}, {0x15f,0x15f,"Ll"}, {0x160,0x160,"Lu"}, {0x161,0x161,"Ll"},
{0x162,0x162,"Lu"}, {0x163,0x163,"Ll"}, {0x164,0x164,"Lu"}, {0x165,0x165,"Ll"}, {0x166,0x166,"Lu"}, {0x167,0x167,"Ll"},
{0x168,0x168,"Lu"}, {0x169,0x169,"Ll"}, {0x16a,0x16a,"Lu"}, {0x16b,0x16b,"Ll"}, {0x16c,0x16c,"Lu"}, {0x16d,0x16d,"Ll"},
{0x16e,0x16e,"Lu"}, {0x16f,0x16f,"Ll"}, {0x170,0x170,"Lu"}, {0x171,0x171,"Ll"}, {0x172,0x172,"Lu"}, {0x173,0x173,"Ll"},
{0x174,0x174,"Lu"}, {0x175,0x175,"Ll"}, {0x176,0x176,"Lu"}, {0x177,0x177,"Ll"}, {0x178,0x179,"Lu"}, {0x17a,0x17a,"Ll"},
{0x17b,0x17b,"Lu"}, {0x17c,0x17c,"Ll"}, {0x17d,0x17d,"Lu"}, {0x17e,0x180,"Ll"}, {0x181,0x182,"Lu"}, {0x183,0x183,"Ll"},
{0x184,0x184,"Lu"}, {0x185,0x185,"Ll"}, {0x186,0x187,"Lu"}, {0x188,0x188,"Ll"}, {0x189,0x18b,"Lu"}, {0x18c,0x18d,"Ll"},
{0x18e,0x191,"Lu"}, {0x192,0x192,"Ll"}, {0x193,0x194,"Lu"}, {0x195,0x195,"Ll"}, {0x196,0x198,"Lu"}, {0x199,0x19b,"Ll"},
{0x19c,0x19d,"Lu"}, {0x19e,0x19e,"Ll"}, {0x19f,0x1a0,"Lu"}, {0x1a1,0x1a1,"Ll"}, {0x1a2,0x1a2,"Lu"}, {0x1a3,0x1a3,"Ll"},
{0x1a4,0x1a4,"Lu"}, {0x1a5,0x1a5,"Ll"}, {0x1a6,0x1a7,"Lu"}, {0x1a8,0x1a8,"Ll"}, {0x1a9,0x1a9,"Lu"}, {0x1aa,0x1ab,"Ll"},
{0x1ac,0x1ac,"Lu"}, {0x1ad,0x1ad,"Ll"}, {0x1ae,0x1af,"Lu"}, {0x1b0,0x1b0,"Ll"}, {0x1b1,0x1b3,"Lu"}, {0x1b4,0x1b4,"Ll"},
{0x1b5,0x1b5,"Lu"}, {0x1b6,0x1b6,"Ll"}, {0x1b7,0x1b8,"Lu"}, {0x1b9,0x1ba,"Ll"}, {0x1bb,0x1bb,"Lo"}, {0x1bc,0x1bc,"Lu"},
{0x1bd,0x1bf,"Ll"}, {0x1c0,0x1c3,"Lo"}, {0x1c4,0x1c4,"Lu"}, {0x1c5,0x1c5,"Lt"}, {0x1c6,0x1c6,"Ll"}, {0x1c7,0x1c7,"Lu"},
{0x1c8,0x1c8,"Lt"}, {0x1c9,0x1c9,"Ll"}, {0x1ca,0x1ca,"Lu"}, {0x1cb,0x1cb,"Lt"}, {0x1cc,0x1cc,"Ll"}, {0x1cd,0x1cd,"Lu"},
{0x1ce,0x1ce,"Ll"}, {0x1cf,0x1cf,"Lu"}, {0x1d0,0x1d0,"Ll"}, {0x1d1,0x1d1,"Lu"}, {0x1d2,0x1d2,"Ll"}, {0x1d3,0x1d3,"Lu"},
{0x1d4,0x1d4,"Ll"}, {0x1d5,0x1d5,"Lu"}, {0x1d6,0x1d6,"Ll"}, {0x1d7,0x1d7,"Lu"}, {0x1d8,0x1d8,"Ll"}, {0x1d9,0x1d9,"Lu"},
{0x1da,0x1da,"Ll"}, {0x1db,0x1db,"Lu"}, {0x1dc,0x1dd,"Ll"}, {0x1de,0x1de,"Lu"}, {0x1df,0x1df,"Ll"}, {0x1e0,0x1e0,"Lu"},
{0x1e1,0x1e1,"Ll"}, {0x1e2,0x1e2,"Lu"}, {0x1e3,0x1e3,"Ll"}, {0x1e4,0x1e4,"Lu"}, {0x1e5,0x1e5,"Ll"}, {0x1e6,0x1e6,"Lu"},
{0x1e7,0x1e7,"Ll"}, {0x1e8,0x1e8,"Lu"}, {0x1e9,0x1e9,"Ll"}, {0x1ea,0x1ea,"Lu"}, {0x1eb,0x1eb,"Ll"}, {0x1ec,0x1ec,"Lu"},
{0x1ed,0x1ed,"Ll"}, {0x1ee,0x1ee,"Lu"}, {0x1ef,0x1f0,"Ll"}, {0x1f1,0x1f1,"Lu"}, {0x1f2,0x1f2,"Lt"}, {0x1f3,0x1f3,"Ll"},
{0x1f4,0x1f4,"Lu"}, {0x1f5,0x1f5,"Ll"}, {0x1f6,0x1f8,"Lu"}, {0x1f9,0x1f9,"Ll"}, {0x1fa,0x1fa,"Lu"}, {0x1fb,0x1fb,"Ll"},
{0x1fc,0x1fc,"Lu"}, {0x1fd,0x1fd,"Ll"}, {0x1fe,0x1fe,"Lu"}, {0x1ff,0x1ff,"Ll"}, {0x200,0x200,"Lu"}, {0x201,0x201,"Ll"},
{0x202,0x202,"Lu"}, {0x203,0x203,"Ll"}, {0x204,0x204,"Lu"}, {0x205,0x205,"Ll"}, {0x206,0x206,"Lu"}, {0x207,0x207,"Ll"},
{0x208,0x208,"Lu"}, {0x209,0x209,"Ll"}, {0x20a,0x20a,"Lu"}, {0x20b,0x20b,"Ll"}, {0x20c,0x20c,"Lu"}, {0x20d,0x20d,"Ll"},
{0x20e,0x20e,"Lu"}, {0x20f,0x20f,"Ll"}, {0x210,0x210,"Lu"}, {0x211,0x211,"Ll"}, {0x212,0x212,"Lu"}, {0x213,0x213,"Ll"},
{0x214,0x214,"Lu"}, {0x215,0x215,"Ll"}, {0x216,0x216,"Lu"}, {0x217,0x217,"Ll"}, {0x218,0x218,"Lu"}, {0x219,0x219,"Ll"},
{0x21a,0x21a,"Lu"}, {0x21b,0x21b,"Ll"}, {0x21c,0x21c,"Lu"}, {0x21d,0x21d,"Ll"}, {0x21e,0x21e,"Lu"}, {0x21f,0x21f,"Ll"},
{0x220,0x220,"Lu"}, {0x221,0x221,"Ll"}, {0x222,0x222,"Lu"}, {0x223,0x223,"Ll"}, {0x224,0x224,"Lu"}, {0x225,0x225,"Ll"},
{0x226,0x226,"Lu"}, {0x227,0x227,"Ll"}, {0x228,0x228,"Lu"}, {0x229,0x229,"Ll"}, {0x22a,0x22a,"Lu"}, {0x22b,0x22b,"Ll"},
{0x22c,0x22c,"Lu"}, {0x22d,0x22d,"Ll"}, {0x22e,0x22e,"Lu"}, {0x22f,0x22f,"Ll"}, {0x230,0x230,"Lu"}, {0x231,0x231,"Ll"},
{0x232,0x232,"Lu"}, {0x233,0x239,"Ll"}, {0x23a,0x23b,"Lu"}, {0x23c,0x23c,"Ll"}, {0x23d,0x23e,"Lu"}, {0x23f,0x240,"Ll"},
{0x241,0x241,"Lu"}, {0x242,0x242,"Ll"}, {0x243,0x246,"Lu"}, {0x247,0x247,"Ll"}, {0x248,0x248,"Lu"}, {0x249,0x249,"Ll"},
{0x24a,0x24a,"Lu"}, {0x24b,0x24b,"Ll"}, {0x24c,0x24c,"Lu"}, {0x24d,0x24d,"Ll"}, {0x24e,0x24e,"Lu"}, {0x24f,0x293,"Ll"},
{0x294,0x294,"Lo"}, {0x295,0x2af,"Ll"}, {0x2b0,0x2c1,"Lm"}, {0x2c2,0x2c5,"Sk"}, {0x2c6,0x2d1,"Lm"}, {0x2d2,0x2df,"Sk"},
{0x2e0,0x2e4,"Lm"}, {0x2e5,0x2eb,"Sk"}, {0x2ec,0x2ec,"Lm"}, {0x2ed,0x2ed,"Sk"}, {0x2ee,0x2ee,"Lm"}, {0x2ef,0x2ff,"Sk"},
{0x300,0x36f,"Mn"}, {0x370,0x370,"Lu"}, {0x371,0x371,"Ll"}, {0x372,0x372,"Lu"}, {0x373,0x373,"Ll"}, {0x374,0x374,"Lm"},
{0x375,0x375,"Sk"}, {0x376,0x376,"Lu"}, {0x377,0x377,"Ll"}, {0x37a,0x37a,"Lm"}, {0x37b,0x37d,"Ll"}, {0x37e,0x37e,"Po"},
{0x37f,0x37f,"Lu"}, {0x384,0x385,"Sk"}, {0x386,0x386,"Lu"}, {0x387,0x387,"Po"}, {0x388,0x38a,"Lu"}, {0x38c,0x38c,"Lu"},
{0x38e,0x38f,"Lu"}, {0x390,0x390,"Ll"}, {0x391,0x3a1,"Lu"}, {0x3a3,0x3ab,"Lu"}, {0x3ac,0x3ce,"Ll"}, {0x3cf,0x3cf,"Lu"},
{0x3d0,0x3d1,"Ll"}, {0x3d2,0x3d4,"Lu"}, {0x3d5,0x3d7,"Ll"}, {0x3d8,0x3d8,"Lu"}, {0x3d9,0x3d9,"Ll"}, {0x3da,0x3da,"Lu"},
{0x3db,0x3db,"Ll"}, {0x3dc,0x3dc,"Lu"}, {0x3dd,0x3dd,"Ll"}, {0x3de,0x3de,"Lu"}, {0x3df,0x3df,"Ll"}, {0x3e0,0x3e0,"Lu"},
{0x3e1,0x3e1,"Ll"}, {0x3e2,0x3e2,"Lu"}, {0x3e3,0x3e3,"Ll"}, {0x3e4,0x3e4,"Lu"}, {0x3e5,0x3e5,"Ll"}, {0x3e6,0x3e6,"Lu"},
{0x3e7,0x3e7,"Ll"}, {0x3e8,0x3e8,"Lu"}, {0x3e9,0x3e9,"Ll"}, {0x3ea,0x3ea,"Lu"}, {0x3eb,0x3eb,"Ll"}, {0x3ec,0x3ec,"Lu"},
{0x3ed,0x3ed,"Ll"}, {0x3ee,0x3ee,"Lu"}, {0x3ef,0x3f3,"Ll"}, {0x3f4,0x3f4,"Lu"}, {0x3f5,0x3f5,"Ll"}, {0x3f6,0x3f6,"Sm"},
{0x3f7,0x3f7,"Lu"}, {0x3f8,0x3f8,"Ll"}, {0x3f9,0x3fa,"Lu"}, {0x3fb,0x3fc,"Ll"}, {0x3fd,0x42f,"Lu"}, {0x430,0x45f,"Ll"},
{0x460,0x460,"Lu"}, {0x461,0x461,"Ll"}, {0x462,0x462,"Lu"}, {0x463,0x463,"Ll"}, {0x464,0x464,"Lu"}, {0x465,0x465,"Ll"},
{0x466,0x466,"Lu"}, {0x467,0x467,"Ll"}, {0x468,0x468,"Lu"}, {0x469,0x469,"Ll"}, {0x46a,0x46a,"Lu"}, {0x46b,0x46b,"Ll"},
{0x46c,0x46c,"Lu"}, {0x46d,0x46d,"Ll"}, {0x46e,0x46e,"Lu"}, {0x46f,0x46f,"Ll"}, {0x470,0x470,"Lu"}, {0x471,0x471,"Ll"},
{0x472,0x472,"Lu"}, {0x473,0x473,"Ll"}, {0x474,0x474,"Lu"}, {0x475,0x475,"Ll"}, {0x476,0x476,"Lu"}, {0x477,0x477,"Ll"},
{0x478,0x478,"Lu"}, {0x479,0x479,"Ll"}, {0x47a,0x47a,"Lu"}, {0x47b,0x47b,"Ll"}, {0x47c,0x47c,"Lu"}, {0x47d,0x47d,"Ll"},
{0x47e,0x47e,"Lu"}, {0x47f,0x47f,"Ll"}, {0x480,0x480,"Lu"}, {0x481,0x481,"Ll"}, {0x482,0x482,"So"}, {0x483,0x487,"Mn"},
{0x488,0x489,"Me"}, {0x48a,0x48a,"Lu"}, {0x48b,0x48b,"Ll"}, {0x48c,0x48c,"Lu"}, {0x48d,0x48d,"Ll"}, {0x48e,0x48e,"Lu"},
{0x48f,0x48f,"Ll"}, {0x490,0x490,"Lu"}, {0x491,0x491,"Ll"}, {0x492,0x492,"Lu"}, {0x493,0x493,"Ll"}, {0x494,0x494,"Lu"},
{0x495,0x495,"Ll"}, {0x496,0x496,"Lu"}, {0x497,0x497,"Ll"}, {0x498,0x498,"Lu"}, {0x499,0x499,"Ll"}, {0x49a,0x49a,"Lu"},
{0x49b,0x49b,"Ll"}, {0x49c,0x49c,"Lu"}, {0x49d,0x49d,"Ll"}, {0x49e,0x49e,"Lu"}, {0x49f,0x49f,"Ll"}, {0x4a0,0x4a0,"Lu"},
{0x4a1,0x4a1,"Ll"}, {0x4a2,0x4a2,"Lu"}, {0x4a3,0x4a3,"Ll"}, {0x4a4,0x4a4,"Lu"}, {0x4a5,0x4a5,"Ll"}, {0x4a6,0x4a6,"Lu"},
{0x4a7,0x4a7,"Ll"}, {0x4a8,0x4a8,"Lu"}, {0x4a9,0x4a9,"Ll"}, {0x4aa,0x4aa,"Lu"}, {0x4ab,0x4ab,"Ll"}, {0x4ac,0x4ac,"Lu"},
{0x4ad,0x4ad,"Ll"}, {0x4ae,0x4ae,"Lu"}, {0x4af,0x4af,"Ll"}, {0x4b0,0x4b0,"Lu"}, {0x4b1,0x4b1,"Ll"}, {0x4b2,0x4b2,"Lu"},
{0x4b3,0x4b3,"Ll"}, {0x4b4,0x4b4,"Lu"}, {0x4b5,0x4b5,"Ll"}, {0x4b6,0x4b6,"Lu"}, {0x4b7,0x4b7,"Ll"}, {0x4b8,0x4b8,"Lu"},
{0x4b9,0x4b9,"Ll"}, {0x4ba,0x4ba,"Lu"}, {0x4bb,0x4bb,"Ll"}, {0x4bc,0x4bc,"Lu"}, {0x4bd,0x4bd,"Ll"}, {0x4be,0x4be,"Lu"},
{0x4bf,0x4bf,"Ll"}, {0x4c0,0x4c1,"Lu"}, {0x4c2,0x4c2,"Ll"}, {0x4c3,0x4c3,"Lu"}, {0x4c4,0x4c4,"Ll"}, {0x4c5,0x4c5,"Lu"},
{0x4c6,0x4c6,"Ll"}, {0x4c7,0x4c7,"Lu"}, {0x4c8,0x4c8,"Ll"}, {0x4c9,0x4c9,"Lu"}, {0x4ca,0x4ca,"Ll"}, {0x4cb,0x4cb,"Lu"},
{0x4cc,0x4cc,"Ll"}, {0x4cd,0x4cd,"Lu"}, {0x4ce,0x4cf,"Ll"}, {0x4d0,0x4d0,"Lu"}, {0x4d1,0x4d1,"Ll"}, {0x4d2,0x4d2,"Lu"},
{0x4d3,0x4d3,"Ll"}, {0x4d4,0x4d4,"Lu"}, {0x4d5,0x4d5,"Ll"}, {0x4d6,0x4d6,"Lu"}, {0x4d7,0x4d7,"Ll"}, {0x4d8,0x4d8,"Lu"},
{0x4d9,0x4d9,"Ll"}, {0x4da,0x4da,"Lu"}, {0x4db,0x4db,"Ll"}, {0x4dc,0x4dc,"Lu"}, {0x4dd,0x4dd,"Ll"}, {0x4de,0x4de,"Lu"},
{0x4df,0x4df,"Ll"}, {0x4e0,0x4e0,"Lu"}, {0x4e1,0x4e1,"Ll"}, {0x4e2,0x4e2,"Lu"}, {0x4e3,0x4e3,"Ll"}, {0x4e4,0x4e4,"Lu"},
{0x4e5,0x4e5,"Ll"}, {0x4e6,0x4e6,"Lu"}, {0x4e7,0x4e7,"Ll"}, {0x4e8,0x4e8,"Lu"}, {0x4e9,0x4e9,"Ll"}, {0x4ea,0x4ea,"Lu"},
{0x4eb,0x4eb,"Ll"}, {0x4ec,0x4ec,"Lu"}, {0x4ed,0x4ed,"Ll"}, {0x4ee,0x4ee,"Lu"}, {0x4ef,0x4ef,"Ll"}, {0x4f0,0x4f0,"Lu"},
{0x4f1,0x4f1,"Ll"}, {0x4f2,0x4f2,"Lu"}, {0x4f3,0x4f3,"Ll"}, {0x4f4,0x4f4,"Lu"}, {0x4f5,0x4f5,"Ll"}, {0x4f6,0x4f6,"Lu"},
{0x4f7,0x4f7,"Ll"}, {0x4f8,0x4f8,"Lu"}, {0x4f9,0x4f9,"Ll"}, {0x4fa,0x4fa,"Lu"}, {0x4fb,0x4fb,"Ll"}, {0x4fc,0x4fc,"Lu"},
{0x4fd,0x4fd,"Ll"}, {0x4fe,0x4fe,"Lu"}, {0x4ff,0x4ff,"Ll"}, {0x500,0x500,"Lu"}, {0x501,0x501,"Ll"}, {0x502,0x502,"Lu"},
{0x503,0x503,"Ll"}, {0x504,0x504,"Lu"}, {0x505,0x505,"Ll"}, {0x506,0x506,"Lu"}, {0x507,0x507,"Ll"}, {0x508,0x508,"Lu"},
{0x509,0x509,"Ll"}, {0x50a,0x50a,"Lu"}, {0x50b,0x50b,"Ll"}, {0x50c,0x50c,"Lu"}, {0x50d,0x50d,"Ll"}, {0x50e,0x50e,"Lu"},
{0x50f,0x50f,"Ll"}, {0x510,0x510,"Lu"}, {0x511,0x511,"Ll"}, {0x512,0x512,"Lu"}, {0x513,0x513,"Ll"}, {0x514,0x514,"Lu"},
{0x515,0x515,"Ll"}, {0x516,0x516,"Lu"}, {0x517,0x517,"Ll"}, {0x518,0x518,"Lu"}, {0x519,0x519,"Ll"}, {0x51a,0x51a,"Lu"},
{0x51b,0x51b,"Ll"}, {0x51c,0x51c,"Lu"}, {0x51d,0x51d,"Ll"}, {0x51e,0x51e,"Lu"}, {0x51f,0x51f,"Ll"}, {0x520,0x520,"Lu"},
{0x521,0x521,"Ll"}, {0x522,0x522,"Lu"}, {0x523,0x523,"Ll"}, {0x524,0x524,"Lu"}, {0x525,0x525,"Ll"}, {0x526,0x526,"Lu"},
{0x527,0x527,"Ll"}, {0x528,0x528,"Lu"}, {0x529,0x529,"Ll"}, {0x52a,0x52a,"Lu"}, {0x52b,0x52b,"Ll"}, {0x52c,0x52c,"Lu"},
{0x52d,0x52d,"Ll"}, {0x52e,0x52e,"Lu"}, {0x52f,0x52f,"Ll"}, {0x531,0x556,"Lu"}, {0x559,0x559,"Lm"}, {0x55a,0x55f,"Po"},
{0x560,0x588,"Ll"}, {0x589,0x589,"Po"}, {0x58a,0x58a,"Pd"}, {0x58d,0x58e,"So"}, {0x58f,0x58f,"Sc"}, {0x591,0x5bd,"Mn"},
{0x5be,0x5be,"Pd"}, {0x5bf,0x5bf,"Mn"}, {0x5c0,0x5c0,"Po"}, {0x5c1,0x5c2,"Mn"}, {0x5c3,0x5c3,"Po"}, {0x5c4,0x5c5,"Mn"},
{0x5c6,0x5c6,"Po"}, {0x5c7,0x5c7,"Mn"}, {0x5d0,0x5ea,"Lo"}, {0x5ef,0x5f2,"Lo"}, {0x5f3,0x5f4,"Po"}, {0x600,0x605,"Cf"},
{0x606,0x608,"Sm"}, {0x609,0x60a,"Po"}, {0x60b,0x60b,"Sc"}, {0x60c,0x60d,"Po"}, {0x60e,0x60f,"So"}, {0x610,0x61a,"Mn"},
{0x61b,0x61b,"Po"}, {0x61c,0x61c,"Cf"}, {0x61d,0x61f,"Po"}, {0x620,0x63f,"Lo"}, {0x640,0x640,"Lm"}, {0x641,0x64a,"Lo"},
{0x64b,0x65f,"Mn"}, {0x660,0x669,"Nd"}, {0x66a,0x66d,"Po"}, {0x66e,0x66f,"Lo"}, {0x670,0x670,"Mn"}, {0x671,0x6d3,"Lo"},
{0x6d4,0x6d4,"Po"}, {0x6d5,0x6d5,"Lo"}, {0x6d6,0x6dc,"Mn"}, {0x6dd,0x6dd,"Cf"}, {0x6de,0x6de,"So"}, {0x6df,0x6e4,"Mn"},
{0x6e5,0x6e6,"Lm"}, {0x6e7,0x6e8,"Mn"}, {0x6e9,0x6e9,"So"}, {0x6ea,0x6ed,"Mn"}, {0x6ee,0x6ef,"Lo"}, {0x6f0,0x6f9,"Nd"},
{0x6fa,0x6fc,"Lo"}, {0x6fd,0x6fe,"So"}, {0x6ff,0x6ff,"Lo"}, {0x700,0x70d,"Po"}, {0x70f,0x70f,"Cf"}, {0x710,0x710,"Lo"},
{0x711,0x711,"Mn"}, {0x712,0x72f,"Lo"}, {0x730,0x74a,"Mn"}, {0x74d,0x7a5,"Lo"}, {0x7a6,0x7b0,"Mn"}, {0x7b1,0x7b1,"Lo"},
{0x7c0,0x7c9,"Nd"}, {0x7ca,0x7ea,"Lo"}, {0x7eb,0x7f3,"Mn"}, {0x7f4,0x7f5,"Lm"}, {0x7f6,0x7f6,"So"}, {0x7f7,0x7f9,"Po"},
{0x7fa,0x7fa,"Lm"}, {0x7fd,0x7fd,"Mn"}, {0x7fe,0x7ff,"Sc"}, {0x800,0x815,"Lo"}, {0x816,0x819,"Mn"}, {0x81a,0x81a,"Lm"},
{0x81b,0x823,"Mn"}, {0x824,0x824,"Lm"}, {0x825,0x827,"Mn"}, {0x828,0x828,"Lm"}, {0x829,0x82d,"Mn"}, {0x830,0x83e,"Po"},
{0x840,0x858,"Lo"}, {0x859,0x85b,"Mn"}, {0x85e,0x85e,"Po"}, {0x860,0x86a,"Lo"}, {0x870,0x887,"Lo"}, {0x888,0x888,"Sk"},
{0x889,0x88e,"Lo"}, {0x890,0x891,"Cf"}, {0x897,0x89f,"Mn"}, {0x8a0,0x8c8,"Lo"}, {0x8c9,0x8c9,"Lm"}, {0x8ca,0x8e1,"Mn"},
{0x8e2,0x8e2,"Cf"}, {0x8e3,0x902,"Mn"}, {0x903,0x903,"Mc"}, {0x904,0x939,"Lo"}, {0x93a,0x93a,"Mn"}, {0x93b,0x93b,"Mc"},
{0x93c,0x93c,"Mn"}, {0x93d,0x93d,"Lo"}, {0x93e,0x940,"Mc"}, {0x941,0x948,"Mn"}, {0x949,0x94c,"Mc"}, {0x94d,0x94d,"Mn"},
{0x94e,0x94f,"Mc"}, {0x950,0x950,"Lo"}, {0x951,0x957,"Mn"}, {0x958,0x961,"Lo"}, {0x962,0x963,"Mn"}, {0x964,0x965,"Po"},
{0x966,0x96f,"Nd"}, {0x970,0x970,"Po"}, {0x971,0x971,"Lm"}, {0x972,0x980,"Lo"}, {0x981,0x981,"Mn"}, {0x982,0x983,"Mc"},
{0x985,0x98c,"Lo"}, {0x98f,0x990,"Lo"}, {0x993,0x9a8,"Lo"}, {0x9aa,0x9b0,"Lo"}, {0x9b2,0x9b2,"Lo"}, {0x9b6,0x9b9,"Lo"},
{0x9bc,0x9bc,"Mn"}, {0x9bd,0x9bd,"Lo"}, {0x9be,0x9c0,"Mc"}, {0x9c1,0x9c4,"Mn"}, {0x9c7,0x9c8,"Mc"}, {0x9cb,0x9cc,"Mc"},
{0x9cd,0x9cd,"Mn"}, {0x9ce,0x9ce,"Lo"}, {0x9d7,0x9d7,"Mc"}, {0x9dc,0x9dd,"Lo"}, {0x9df,0x9e1,"Lo"}, {0x9e2,0x9e3,"Mn"},
{0x9e6,0x9ef,"Nd"}, {0x9f0,0x9f1,"Lo"}, {0x9f2,0x9f3,"Sc"}, {0x9f4,0x9f9,"No"}, {0x9fa,0x9fa,"So"}, {0x9fb,0x9fb,"Sc"},
{0x9fc,0x9fc,"Lo"}, {0x9fd,0x9fd,"Po"}, {0x9fe,0x9fe,"Mn"}, {0xa01,0xa02,"Mn"}, {0xa03,0xa03,"Mc"}, {0xa05,0xa0a,"Lo"},
{0xa0f,0xa10,"Lo"}, {0xa13,0xa28,"Lo"}, {0xa2a,0xa30,"Lo"}, {0xa32,0xa33,"Lo"}, {0xa35,0xa36,"Lo"}, {0xa38,0xa39,"Lo"},
{0xa3c,0xa3c,"Mn"}, {0xa3e,0xa40,"Mc"}, {0xa41,0xa42,"Mn"}, {0xa47,0xa48,"Mn"}, {0xa4b,0xa4d,"Mn"}, {0xa51,0xa51,"Mn"},
{0xa59,0xa5c,"Lo"}, {0xa5e,0xa5e,"Lo"}, {0xa66,0xa6f,"Nd"}, {0xa70,0xa71,"Mn"}, {0xa72,0xa74,"Lo"}, {0xa75,0xa75,"Mn"},
{0xa76,0xa76,"Po"}, {0xa81,0xa82,"Mn"}, {0xa83,0xa83,"Mc"}, {0xa85,0xa8d,"Lo"}, {0xa8f,0xa91,"Lo"}, {0xa93,0xaa8,"Lo"},
{0xaaa,0xab0,"Lo"}, {0xab2,0xab3,"Lo"}, {0xab5,0xab9,"Lo"}, {0xabc,0xabc,"Mn"}, {0xabd,0xabd,"Lo"}, {0xabe,0xac0,"Mc"},
{0xac1,0xac5,"Mn"}, {0xac7,0xac8,"Mn"}, {0xac9,0xac9,"Mc"}, {0xacb,0xacc,"Mc"}, {0xacd,0xacd,"Mn"}, {0xad0,0xad0,"Lo"},
{0xae0,0xae1,"Lo"}, {0xae2,0xae3,"Mn"}, {0xae6,0xaef,"Nd"}, {0xaf0,0xaf0,"Po"}, {0xaf1,0xaf1,"Sc"}, {0xaf9,0xaf9,"Lo"},
{0xafa,0xaff,"Mn"}, {0xb01,0xb01,"Mn"}, {0xb02,0xb03,"Mc"}, {0xb05,0xb0c,"Lo"}, {0xb0f,0xb10,"Lo"}, {0xb13,0xb28,"Lo"},
{0xb2a,0xb30,"Lo"}, {0xb32,0xb33,"Lo"}, {0xb35,0xb39,"Lo"}, {0xb3c,0xb3c,"Mn"}, {0xb3d,0xb3d,"Lo"}, {0xb3e,0xb3e,"Mc"},
{0xb3f,0xb3f,"Mn"}, {0xb40,0xb40,"Mc"}, {0xb41,0xb44,"Mn"}, {0xb47,0xb48,"Mc"}, {0xb4b,0xb4c,"Mc"}, {0xb4d,0xb4d,"Mn"},
{0xb55,0xb56,"Mn"}, {0xb57,0xb57,"Mc"}, {0xb5c,0xb5d,"Lo"}, {0xb5f,0xb61,"Lo"}, {0xb62,0xb63,"Mn"}, {0xb66,0xb6f,"Nd"},
{0xb70,0xb70,"So"}, {0xb71,0xb71,"Lo"}, {0xb72,0xb77,"No"}, {0xb82,0xb82,"Mn"}, {0xb83,0xb83,"Lo"}, {0xb85,0xb8a,"Lo"},
{0xb8e,0xb90,"Lo"}, {0xb92,0xb95,"Lo"}, {0xb99,0xb9a,"Lo"}, {0xb9c,0xb9c,"Lo"}, {0xb9e,0xb9f,"Lo"}, {0xba3,0xba4,"Lo"},
{0xba8,0xbaa,"Lo"}, {0xbae,0xbb9,"Lo"}, {0xbbe,0xbbf,"Mc"}, {0xbc0,0xbc0,"Mn"}, {0xbc1,0xbc2,"Mc"}, {0xbc6,0xbc8,"Mc"},
{0xbca,0xbcc,"Mc"}, {0xbcd,0xbcd,"Mn"}, {0xbd0,0xbd0,"Lo"}, {0xbd7,0xbd7,"Mc"}, {0xbe6,0xbef,"Nd"}, {0xbf0,0xbf2,"No"},
{0xbf3,0xbf8,"So"}, {0xbf9,0xbf9,"Sc"}, {0xbfa,0xbfa,"So"}, {0xc00,0xc00,"Mn"}, {0xc01,0xc03,"Mc"}, {0xc04,0xc04,"Mn"},
{0xc05,0xc0c,"Lo"}, {0xc0e,0xc10,"Lo"}, {0xc12,0xc28,"Lo"}, {0xc2a,0xc39,"Lo"}, {0xc3c,0xc3c,"Mn"}, {0xc3d,0xc3d,"Lo"},
{0xc3e,0xc40,"Mn"}, {0xc41,0xc44,"Mc"}, {0xc46,0xc48,"Mn"}, {0xc4a,0xc4d,"Mn"}, {0xc55,0xc56,"Mn"}, {0xc58,0xc5a,"Lo"},
{0xc5d,0xc5d,"Lo"}, {0xc60,0xc61,"Lo"}, {0xc62,0xc63,"Mn"}, {0xc66,0xc6f,"Nd"}, {0xc77,0xc77,"Po"}, {0xc78,0xc7e,"No"},
{0xc7f,0xc7f,"So"}, {0xc80,0xc80,"Lo"}, {0xc81,0xc81,"Mn"}, {0xc82,0xc83,"Mc"}, {0xc84,0xc84,"Po"}, {0xc85,0xc8c,"Lo"},
{0xc8e,0xc90,"Lo"}, {0xc92,0xca8,"Lo"}, {0xcaa,0xcb3,"Lo"}, {0xcb5,0xcb9,"Lo"}, {0xcbc,0xcbc,"Mn"}, {0xcbd,0xcbd,"Lo"},
{0xcbe,0xcbe,"Mc"}, {0xcbf,0xcbf,"Mn"}, {0xcc0,0xcc4,"Mc"}, {0xcc6,0xcc6,"Mn"}, {0xcc7,0xcc8,"Mc"}, {0xcca,0xccb,"Mc"},
{0xccc,0xccd,"Mn"}, {0xcd5,0xcd6,"Mc"}, {0xcdd,0xcde,"Lo"}, {0xce0,0xce1,"Lo"}, {0xce2,0xce3,"Mn"}, {0xce6,0xcef,"Nd"},
{0xcf1,0xcf2,"Lo"}, {0xcf3,0xcf3,"Mc"}, {0xd00,0xd01,"Mn"}, {0xd02,0xd03,"Mc"}, {0xd04,0xd0c,"Lo"}, {0xd0e,0xd10,"Lo"},
{0xd12,0xd3a,"Lo"}, {0xd3b,0xd3c,"Mn"}, {0xd3d,0xd3d,"Lo"}, {0xd3e,0xd40,"Mc"}, {0xd41,0xd44,"Mn"}, {0xd46,0xd48,"Mc"},
{0xd4a,0xd4c,"Mc"}, {0xd4d,0xd4d,"Mn"}, {0xd4e,0xd4e,"Lo"}, {0xd4f,0xd4f,"So"}, {0xd54,0xd56,"Lo"}, {0xd57,0xd57,"Mc"},
{0xd58,0xd5e,"No"}, {0xd5f,0xd61,"Lo"}, {0xd62,0xd63,"Mn"}, {0xd66,0xd6f,"Nd"}, {0xd70,0xd78,"No"}, {0xd79,0xd79,"So"},
{0xd7a,0xd7f,"Lo"}, {0xd81,0xd81,"Mn"}, {0xd82,0xd83,"Mc"}, {0xd85,0xd96,"Lo"}, {0xd9a,0xdb1,"Lo"}, {0xdb3,0xdbb,"Lo"},
{0xdbd,0xdbd,"Lo"}, {0xdc0,0xdc6,"Lo"}, {0xdca,0xdca,"Mn"}, {0xdcf,0xdd1,"Mc"}, {0xdd2,0xdd4,"Mn"}, {0xdd6,0xdd6,"Mn"},
{0xdd8,0xddf,"Mc"}, {0xde6,0xdef,"Nd"}, {0xdf2,0xdf3,"Mc"}, {0xdf4,0xdf4,"Po"}, {0xe01,0xe30,"Lo"}, {0xe31,0xe31,"Mn"},
{0xe32,0xe33,"Lo"}, {0xe34,0xe3a,"Mn"}, {0xe3f,0xe3f,"Sc"}, {0xe40,0xe45,"Lo"}, {0xe46,0xe46,"Lm"}, {0xe47,0xe4e,"Mn"},
{0xe4f,0xe4f,"Po"}, {0xe50,0xe59,"Nd"}, {0xe5a,0xe5b,"Po"}, {0xe81,0xe82,"Lo"}, {0xe84,0xe84,"Lo"}, {0xe86,0xe8a,"Lo"},
{0xe8c,0xea3,"Lo"}, {0xea5,0xea5,"Lo"}, {0xea7,0xeb0,"Lo"}, {0xeb1,0xeb1,"Mn"}, {0xeb2,0xeb3,"Lo"}, {0xeb4,0xebc,"Mn"},
{0xebd,0xebd,"Lo"}, {0xec0,0xec4,"Lo"}, {0xec6,0xec6,"Lm"}, {0xec8,0xece,"Mn"}, {0xed0,0xed9,"Nd"}, {0xedc,0xedf,"Lo"},
{0xf00,0xf00,"Lo"}, {0xf01,0xf03,"So"}, {0xf04,0xf12,"Po"}, {0xf13,0xf13,"So"}, {0xf14,0xf14,"Po"}, {0xf15,0xf17,"So"},
{0xf18,0xf19,"Mn"}, {0xf1a,0xf1f,"So"}, {0xf20,0xf29,"Nd"}, {0xf2a,0xf33,"No"}, {0xf34,0xf34,"So"}, {0xf35,0xf35,"Mn"},
{0xf36,0xf36,"So"}, {0xf37,0xf37,"Mn"}, {0xf38,0xf38,"So"}, {0xf39,0xf39,"Mn"}, {0xf3a,0xf3a,"Ps"}, {0xf3b,0xf3b,"Pe"},
{0xf3c,0xf3c,"Ps"}, {0xf3d,0xf3d,"Pe"}, {0xf3e,0xf3f,"Mc"}, {0xf40,0xf47,"Lo"}, {0xf49,0xf6c,"Lo"}, {0xf71,0xf7e,"Mn"},
{0xf7f,0xf7f,"Mc"}, {0xf80,0xf84,"Mn"}, {0xf85,0xf85,"Po"}, {0xf86,0xf87,"Mn"}, {0xf88,0xf8c,"Lo"}, {0xf8d,0xf97,"Mn"},
{0xf99,0xfbc,"Mn"}, {0xfbe,0xfc5,"So"}, {0xfc6,0xfc6,"Mn"}, {0xfc7,0xfcc,"So"}, {0xfce,0xfcf,"So"}, {0xfd0,0xfd4,"Po"},
{0xfd5,0xfd8,"So"}, {0xfd9,0xfda,"Po"}, {0x1000,0x102a,"Lo"}, {0x102b,0x102c,"Mc"}, {0x102d,0x1030,"Mn"}, {0x1031,0x1031,"Mc"},
{0x1032,0x1037,"Mn"}, {0x1038,0x1038,"Mc"}, {0x1039,0x103a,"Mn"}, {0x103b,0x103c,"Mc"}, {0x103d,0x103e,"Mn"}, {0x103f,0x103f,"Lo"},
{0x1040,0x1049,"Nd"}, {0x104a,0x104f,"Po"}, {0x1050,0x1055,"Lo"}, {0x1056,0x1057,"Mc"}, {0x1058,0x1059,"Mn"}, {0x105a,0x105d,"Lo"},
{0x105e,0x1060,"Mn"}, {0x1061,0x1061,"Lo"}, {0x1062,0x1064,"Mc"}, {0x1065,0x1066,"Lo"}, {0x1067,0x106d,"Mc"}, {0x106e,0x1070,"Lo"},
{0x1071,0x1074,"Mn"}, {0x1075,0x1081,"Lo"}, {0x1082,0x1082,"Mn"}, {0x1083,0x1084,"Mc"}, {0x1085,0x1086,"Mn"}, {0x1087,0x108c,"Mc"},
{0x108d,0x108d,"Mn"}, {0x108e,0x108e,"Lo"}, {0x108f,0x108f,"Mc"}, {0x1090,0x1099,"Nd"}, {0x109a,0x109c,"Mc"}, {0x109d,0x109d,"Mn"},
{0x109e,0x109f,"So"}, {0x10a0,0x10c5,"Lu"}, {0x10c7,0x10c7,"Lu"}, {0x10cd,0x10cd,"Lu"}, {0x10d0,0x10fa,"Ll"}, {0x10fb,0x10fb,"Po"},
{0x10fc,0x10fc,"Lm"}, {0x10fd,0x10ff,"Ll"}, {0x1100,0x1248,"Lo"}, {0x124a,0x124d,"Lo"}, {0x1250,0x1256,"Lo"}, {0x1258,0x1258,"Lo"},
{0x125a,0x125d,"Lo"}, {0x1260,0x1288,"Lo"}, {0x128a,0x128d,"Lo"}, {0x1290,0x12b0,"Lo"}, {0x12b2,0x12b5,"Lo"}, {0x12b8,0x12be,"Lo"},
{0x12c0,0x12c0,"Lo"}, {0x12c2,0x12c5,"Lo"}, {0x12c8,0x12d6,"Lo"}, {0x12d8,0x1310,"Lo"}, {0x1312,0x1315,"Lo"}, {0x1318,0x135a,"Lo"},
{0x135d,0x135f,"Mn"}, {0x1360,0x1368,"Po"}, {0x1369,0x137c,"No"}, {0x1380,0x138f,"Lo"}, {0x1390,0x1399,"So"}, {0x13a0,0x13f5,"Lu"},
{0x13f8,0x13fd,"Ll"}, {0x1400,0x1400,"Pd"}, {0x1401,0x166c,"Lo"}, {0x166d,0x166d,"So"}, {0x166e,0x166e,"Po"}, {0x166f,0x167f,"Lo"},
{0x1680,0x1680,"Zs"}, {0x1681,0x169a,"Lo"}, {0x169b,0x169b,"Ps"}, {0x169c,0x169c,"Pe"}, {0x16a0,0x16ea,"Lo"}, {0x16eb,0x16ed,"Po"},
{0x16ee,0x16f0,"Nl"}, {0x16f1,0x16f8,"Lo"}, {0x1700,0x1711,"Lo"}, {0x1712,0x1714,"Mn"}, {0x1715,0x1715,"Mc"}, {0x171f,0x1731,"Lo"},
{0x1732,0x1733,"Mn"}, {0x1734,0x1734,"Mc"}, {0x1735,0x1736,"Po"}, {0x1740,0x1751,"Lo"}, {0x1752,0x1753,"Mn"}, {0x1760,0x176c,"Lo"},
{0x176e,0x1770,"Lo"}, {0x1772,0x1773,"Mn"}, {0x1780,0x17b3,"Lo"}, {0x17b4,0x17b5,"Mn"}, {0x17b6,0x17b6,"Mc"}, {0x17b7,0x17bd,"Mn"},
{0x17be,0x17c5,"Mc"}, {0x17c6,0x17c6,"Mn"}, {0x17c7,0x17c8,"Mc"}, {0x17c9,0x17d3,"Mn"}, {0x17d4,0x17d6,"Po"}, {0x17d7,0x17d7,"Lm"},
{0x17d8,0x17da,"Po"}, {0x17db,0x17db,"Sc"}, {0x17dc,0x17dc,"Lo"}, {0x17dd,0x17dd,"Mn"}, {0x17e0,0x17e9,"Nd"}, {0x17f0,0x17f9,"No"},
{0x1800,0x1805,"Po"}, {0x1806,0x1806,"Pd"}, {0x1807,0x180a,"Po"}, {0x180b,0x180d,"Mn"}, {0x180e,0x180e,"Cf"}, {0x180f,0x180f,"Mn"},
{0x1810,0x1819,"Nd"}, {0x1820,0x1842,"Lo"}, {0x1843,0x1843,"Lm"}, {0x1844,0x1878,"Lo"}, {0x1880,0x1884,"Lo"}, {0x1885,0x1886,"Mn"},
{0x1887,0x18a8,"Lo"}, {0x18a9,0x18a9,"Mn"}, {0x18aa,0x18aa,"Lo"}, {0x18b0,0x18f5,"Lo"}, {0x1900,0x191e,"Lo"}, {0x1920,0x1922,"Mn"},
{0x1923,0x1926,"Mc"}, {0x1927,0x1928,"Mn"}, {0x1929,0x192b,"Mc"}, {0x1930,0x1931,"Mc"}, {0x1932,0x1932,"Mn"}, {0x1933,0x1938,"Mc"},
{0x1939,0x193b,"Mn"}, {0x1940,0x1940,"So"}, {0x1944,0x1945,"Po"}, {0x1946,0x194f,"Nd"}, {0x1950,0x196d,"Lo"}, {0x1970,0x1974,"Lo"},
{0x1980,0x19ab,"Lo"}, {0x19b0,0x19c9,"Lo"}, {0x19d0,0x19d9,"Nd"}, {0x19da,0x19da,"No"}, {0x19de,0x19ff,"So"}, {0x1a00,0x1a16,"Lo"},
{0x1a17,0x1a18,"Mn"}, {0x1a19,0x1a1a,"Mc"}, {0x1a1b,0x1a1b,"Mn"}, {0x1a1e,0x1a1f,"Po"}, {0x1a20,0x1a54,"Lo"}, {0x1a55,0x1a55,"Mc"},
{0x1a56,0x1a56,"Mn"}, {0x1a57,0x1a57,"Mc"}, {0x1a58,0x1a5e,"Mn"}, {0x1a60,0x1a60,"Mn"}, {0x1a61,0x1a61,"Mc"}, {0x1a62,0x1a62,"Mn"},
{0x1a63,0x1a64,"Mc"}, {0x1a65,0x1a6c,"Mn"}, {0x1a6d,0x1a72,"Mc"}, {0x1a73,0x1a7c,"Mn"}, {0x1a7f,0x1a7f,"Mn"}, {0x1a80,0x1a89,"Nd"},
{0x1a90,0x1a99,"Nd"}, {0x1aa0,0x1aa6,"Po"}, {0x1aa7,0x1aa7,"Lm"}, {0x1aa8,0x1aad,"Po"}, {0x1ab0,0x1abd,"Mn"}, {0x1abe,0x1abe,"Me"},
{0x1abf,0x1ace,"Mn"}, {0x1b00,0x1b03,"Mn"}, {0x1b04,0x1b04,"Mc"}, {0x1b05,0x1b33,"Lo"}, {0x1b34,0x1b34,"Mn"}, {0x1b35,0x1b35,"Mc"},
{0x1b36,0x1b3a,"Mn"}, {0x1b3b,0x1b3b,"Mc"}, {0x1b3c,0x1b3c,"Mn"}, {0x1b3d,0x1b41,"Mc"}, {0x1b42,0x1b42,"Mn"}, {0x1b43,0x1b44,"Mc"},
{0x1b45,0x1b4c,"Lo"}, {0x1b4e,0x1b4f,"Po"}, {0x1b50,0x1b59,"Nd"}, {0x1b5a,0x1b60,"Po"}, {0x1b61,0x1b6a,"So"}, {0x1b6b,0x1b73,"Mn"},
{0x1b74,0x1b7c,"So"}, {0x1b7d,0x1b7f,"Po"}, {0x1b80,0x1b81,"Mn"}, {0x1b82,0x1b82,"Mc"}, {0x1b83,0x1ba0,"Lo"}, {0x1ba1,0x1ba1,"Mc"},
{0x1ba2,0x1ba5,"Mn"}, {0x1ba6,0x1ba7,"Mc"}, {0x1ba8,0x1ba9,"Mn"}, {0x1baa,0x1baa,"Mc"}, {0x1bab,0x1bad,"Mn"}, {0x1bae,0x1baf,"Lo"},
{0x1bb0,0x1bb9,"Nd"}, {0x1bba,0x1be5,"Lo"}, {0x1be6,0x1be6,"Mn"}, {0x1be7,0x1be7,"Mc"}, {0x1be8,0x1be9,"Mn"}, {0x1bea,0x1bec,"Mc"},
{0x1bed,0x1bed,"Mn"}, {0x1bee,0x1bee,"Mc"}, {0x1bef,0x1bf1,"Mn"}, {0x1bf2,0x1bf3,"Mc"}, {0x1bfc,0x1bff,"Po"}, {0x1c00,0x1c23,"Lo"},
{0x1c24,0x1c2b,"Mc"}, {0x1c2c,0x1c33,"Mn"}, {0x1c34,0x1c35,"Mc"}, {0x1c36,0x1c37,"Mn"}, {0x1c3b,0x1c3f,"Po"}, {0x1c40,0x1c49,"Nd"},
{0x1c4d,0x1c4f,"Lo"}, {0x1c50,0x1c59,"Nd"}, {0x1c5a,0x1c77,"Lo"}, {0x1c78,0x1c7d,"Lm"}, {0x1c7e,0x1c7f,"Po"}, {0x1c80,0x1c88,"Ll"},
{0x1c89,0x1c89,"Lu"}, {0x1c8a,0x1c8a,"Ll"}, {0x1c90,0x1cba,"Lu"}, {0x1cbd,0x1cbf,"Lu"}, {0x1cc0,0x1cc7,"Po"}, {0x1cd0,0x1cd2,"Mn"},
{0x1cd3,0x1cd3,"Po"}, {0x1cd4,0x1ce0,"Mn"}, {0x1ce1,0x1ce1,"Mc"}, {0x1ce2,0x1ce8,"Mn"}, {0x1ce9,0x1cec,"Lo"}, {0x1ced,0x1ced,"Mn"},
{0x1cee,0x1cf3,"Lo"}, {0x1cf4,0x1cf4,"Mn"}, {0x1cf5,0x1cf6,"Lo"}, {0x1cf7,0x1cf7,"Mc"}, {0x1cf8,0x1cf9,"Mn"}, {0x1cfa,0x1cfa,"Lo"},
{0x1d00,0x1d2b,"Ll"}, {0x1d2c,0x1d6a,"Lm"}, {0x1d6b,0x1d77,"Ll"}, {0x1d78,0x1d78,"Lm"}, {0x1d79,0x1d9a,"Ll"}, {0x1d9b,0x1dbf,"Lm"},
{0x1dc0,0x1dff,"Mn"}, {0x1e00,0x1e00,"Lu"}, {0x1e01,0x1e01,"Ll"}, {0x1e02,0x1e02,"Lu"}, {0x1e03,0x1e03,"Ll"}, {0x1e04,0x1e04,"Lu"},
{0x1e05,0x1e05,"Ll"}, {0x1e06,0x1e06,"Lu"}, {0x1e07,0x1e07,"Ll"}, {0x1e08,0x1e08,"Lu"}, {0x1e09,0x1e09,"Ll"}, {0x1e0a,0x1e0a,"Lu"},
{0x1e0b,0x1e0b,"Ll"}, {0x1e0c,0x1e0c,"Lu"}, {0x1e0d,0x1e0d,"Ll"}, {0x1e0e,0x1e0e,"Lu"}, {0x1e0f,0x1e0f,"Ll"}, {0x1e10,0x1e10,"Lu"},
{0x1e11,0x1e11,"Ll"}, {0x1e12,0x1e12,"Lu"}, {0x1e13,0x1e13,"Ll"}, {0x1e14,0x1e14,"Lu"}, {0x1e15,0x1e15,"Ll"}, {0x1e16,0x1e16,"Lu"},
{0x1e17,0x1e17,"Ll"}, {0x1e18,0x1e18,"Lu"}, {0x1e19,0x1e19,"Ll"}, {0x1e1a,0x1e1a,"Lu"}, {0x1e1b,0x1e1b,"Ll"}, {0x1e1c,0x1e1c,"Lu"},
{0x1e1d,0x1e1d,"Ll"}, {0x1e1e,0x1e1e,"Lu"}, {0x1e1f,0x1e1f,"Ll"}, {0x1e20,0x1e20,"Lu"}, {0x1e21,0x1e21,"Ll"}, {0x1e22,0x1e22,"Lu"},
{0x1e23,0x1e23,"Ll"}, {0x1e24,0x1e24,"Lu"}, {0x1e25,0x1e25,"Ll"}, {0x1e26,0x1e26,"Lu"}, {0x1e27,0x1e27,"Ll"}, {0x1e28,0x1e28,"Lu"},
{0x1e29,0x1e29,"Ll"}, {0x1e2a,0x1e2a,"Lu"}, {0x1e2b,0x1e2b,"Ll"}, {0x1e2c,0x1e2c,"Lu"}, {0x1e2d,0x1e2d,"Ll"}, {0x1e2e,0x1e2e,"Lu"},
{0x1e2f,0x1e2f,"Ll"}, {0x1e30,0x1e30,"Lu"}, {0x1e31,0x1e31,"Ll"}, {0x1e32,0x1e32,"Lu"}, {0x1e33,0x1e33,"Ll"}, {0x1e34,0x1e34,"Lu"},
{0x1e35,0x1e35,"Ll"}, {0x1e36,0x1e36,"Lu"}, {0x1e37,0x1e37,"Ll"}, {0x1e38,0x1e38,"Lu"}, {0x1e39,0x1e39,"Ll"}, {0x1e3a,0x1e3a,"Lu"},
{0x1e3b,0x1e3b,"Ll"}, {0x1e3c,0x1e3c,"Lu"}, {0x1e3d,0x1e3d,"Ll"}, {0x1e3e,0x1e3e,"Lu"}, {0x1e3f,0x1e3f,"Ll"}, {0x1e40,0x1e40,"Lu"},
{0x1e41,0x1e41,"Ll"}, {0x1e42,0x1e42,"Lu"}, {0x1e43,0x1e43,"Ll"}, {0x1e44,0x1e44,"Lu"}, {0x1e45,0x1e45,"Ll"}, {0x1e46,0x1e46,"Lu"},
{0x1e47,0x1e47,"Ll"}, {0x1e48,0x1e48,"Lu"}, {0x1e49,0x1e49,"Ll"}, {0x1e4a,0x1e4a,"Lu"}, {0x1e4b,0x1e4b,"Ll"}, {0x1e4c,0x1e4c,"Lu"},
{0x1e4d,0x1e4d,"Ll"}, {0x1e4e,0x1e4e,"Lu"}, {0x1e4f,0x1e4f,"Ll"}, {0x1e50,0x1e50,"Lu"}, {0x1e51,0x1e51,"Ll"}, {0x1e52,0x1e52,"Lu"},
{0x1e53,0x1e53,"Ll"}, {0x1e54,0x1e54,"Lu"}, {0x1e55,0x1e55,"Ll"}, {0x1e56,0x1e56,"Lu"}, {0x1e57,0x1e57,"Ll"}, {0x1e58,0x1e58,"Lu"},
{0x1e59,0x1e59,"Ll"}, {0x1e5a,0x1e5a,"Lu"}, {0x1e5b,0x1e5b,"Ll"}, {0x1e5c,0x1e5c,"Lu"}, {0x1e5d,0x1e5d,"Ll"}, {0x1e5e,0x1e5e,"Lu"},
{0x1e5f,0x1e5f,"Ll"}, {0x1e60,0x1e60,"Lu"}, {0x1e61,0x1e61,"Ll"}, {0x1e62,0x1e62,"Lu"}, {0x1e63,0x1e63,"Ll"}, {0x1e64,0x1e64,"Lu"},
{0x1e65,0x1e65,"Ll"}, {0x1e66,0x1e66,"Lu"}, {0x1e67,0x1e67,"Ll"}, {0x1e68,0x1e68,"Lu"}, {0x1e69,0x1e69,"Ll"}, {0x1e6a,0x1e6a,"Lu"},
{0x1e6b,0x1e6b,"Ll"}, {0x1e6c,0x1e6c,"Lu"}, {0x1e6d,0x1e6d,"Ll"}, {0x1e6e,0x1e6e,"Lu"}, {0x1e6f,0x1e6f,"Ll"}, {0x1e70,0x1e70,"Lu"},
{0x1e71,0x1e71,"Ll"}, {0x1e72,0x1e72,"Lu"}, {0x1e73,0x1e73,"Ll"}, {0x1e74,0x1e74,"Lu"}, {0x1e75,0x1e75,"Ll"}, {0x1e76,0x1e76,"Lu"},
{0x1e77,0x1e77,"Ll"}, {0x1e78,0x1e78,"Lu"}, {0x1e79,0x1e79,"Ll"}, {0x1e7a,0x1e7a,"Lu"}, {0x1e7b,0x1e7b,"Ll"}, {0x1e7c,0x1e7c,"Lu"},
{0x1e7d,0x1e7d,"Ll"}, {0x1e7e,0x1e7e,"Lu"}, {0x1e7f,0x1e7f,"Ll"}, {0x1e80,0x1e80,"Lu"}, {0x1e81,0x1e81,"Ll"}, {0x1e82,0x1e82,"Lu"},
{0x1e83,0x1e83,"Ll"}, {0x1e84,0x1e84,"Lu"}, {0x1e85,0x1e85,"Ll"}, {0x1e86,0x1e86,"Lu"}, {0x1e87,0x1e87,"Ll"}, {0x1e88,0x1e88,"Lu"},
{0x1e89,0x1e89,"Ll"}, {0x1e8a,0x1e8a,"Lu"}, {0x1e8b,0x1e8b,"Ll"}, {0x1e8c,0x1e8c,"Lu"}, {0x1e8d,0x1e8d,"Ll"}, {0x1e8e,0x1e8e,"Lu"},
{0x1e8f,0x1e8f,"Ll"}, {0x1e90,0x1e90,"Lu"}, {0x1e91,0x1e91,"Ll"}, {0x1e92,0x1e92,"Lu"}, {0x1e93,0x1e93,"Ll"}, {0x1e94,0x1e94,"Lu"},
{0x1e95,0x1e9d,"Ll"}, {0x1e9e,0x1e9e,"Lu"}, {0x1e9f,0x1e9f,"Ll"}, {0x1ea0,0x1ea0,"Lu"}, {0x1ea1,0x1ea1,"Ll"}, {0x1ea2,0x1ea2,"Lu"},
{0x1ea3,0x1ea3,"Ll"}, {0x1ea4,0x1ea4,"Lu"}, {0x1ea5,0x1ea5,"Ll"}, {0x1ea6,0x1ea6,"Lu"}, {0x1ea7,0x1ea7,"Ll"}, {0x1ea8,0x1ea8,"Lu"},
{0x1ea9,0x1ea9,"Ll"}, {0x1eaa,0x1eaa,"Lu"}, {0x1eab,0x1eab,"Ll"}, {0x1eac,0x1eac,"Lu"}, {0x1ead,0x1ead,"Ll"}, {0x1eae,0x1eae,"Lu"},
{0x1eaf,0x1eaf,"Ll"}, {0x1eb0,0x1eb0,"Lu"}, {0x1eb1,0x1eb1,"Ll"}, {0x1eb2,0x1eb2,"Lu"}, {0x1eb3,0x1eb3,"Ll"}, {0x1eb4,0x1eb4,"Lu"},
{0x1eb5,0x1eb5,"Ll"}, {0x1eb6,0x1eb6,"Lu"}, {0x1eb7,0x1eb7,"Ll"}, {0x1eb8,0x1eb8,"Lu"}, {0x1eb9,0x1eb9,"Ll"}, {0x1eba,0x1eba,"Lu"},
{0x1ebb,0x1ebb,"Ll"}, {0x1ebc,0x1ebc,"Lu"}, {0x1ebd,0x1ebd,"Ll"}, {0x1ebe,0x1ebe,"Lu"}, {0x1ebf,0x1ebf,"Ll"}, {0x1ec0,0x1ec0,"Lu"},
{0x1ec1,0x1ec1,"Ll"}, {0x1ec2,0x1ec2,"Lu"}, {0x1ec3,0x1ec3,"Ll"}, {0x1ec4,0x1ec4,"Lu"}, {0x1ec5,0x1ec5,"Ll"}, {0x1ec6,0x1ec6,"Lu"},
{0x1ec7,0x1ec7,"Ll"}, {0x1ec8,0x1ec8,"Lu"}, {0x1ec9,0x1ec9,"Ll"}, {0x1eca,0x1eca,"Lu"}, {0x1ecb,0x1ecb,"Ll"}, {0x1ecc,0x1ecc,"Lu"},
{0x1ecd,0x1ecd,"Ll"}, {0x1ece,0x1ece,"Lu"}, {0x1ecf,0x1ecf,"Ll"}, {0x1ed0,0x1ed0,"Lu"}, {0x1ed1,0x1ed1,"Ll"}, {0x1ed2,0x1ed2,"Lu"},
{0x1ed3,0x1ed3,"Ll"}, {0x1ed4,0x1ed4,"Lu"}, {0x1ed5,0x1ed5,"Ll"}, {0x1ed6,0x1ed6,"Lu"}, {0x1ed7,0x1ed7,"Ll"}, {0x1ed8,0x1ed8,"Lu"},
{0x1ed9,0x1ed9,"Ll"}, {0x1eda,0x1eda,"Lu"}, {0x1edb,0x1edb,"Ll"}, {0x1edc,0x1edc,"Lu"}, {0x1edd,0x1edd,"Ll"}, {0x1ede,0x1ede,"Lu"},
{0x1edf,0x1edf,"Ll"}, {0x1ee0,0x1ee0,"Lu"}, {0x1ee1,0x1ee1,"Ll"}, {0x1ee2,0x1ee2,"Lu"}, {0x1ee3,0x1ee3,"Ll"}, {0x1ee4,0x1ee4,"Lu"},
{0x1ee5,0x1ee5,"Ll"}, {0x1ee6,0x1ee6,"Lu"}, {0x1ee7,0x1ee7,"Ll"}, {0x1ee8,0x1ee8,"Lu"}, {0x1ee9,0x1ee9,"Ll"}, {0x1eea,0x1eea,"Lu"},
{0x1eeb,0x1eeb,"Ll"}, {0x1eec,0x1eec,"Lu"}, {0x1eed,0x1eed,"Ll"}, {0x1eee,0x1eee,"Lu"}, {0x1eef,0x1eef,"Ll"}, {0x1ef0,0x1ef0,"Lu"},
{0x1ef1,0x1ef1,"Ll"}, {0x1ef2,0x1ef2,"Lu"}, {0x1ef3,0x1ef3,"Ll"}, {0x1ef4,0x1ef4,"Lu"}, {0x1ef5,0x1ef5,"Ll"}, {0x1ef6,0x1ef6,"Lu"},
{0x1ef7,0x1ef7,"Ll"}, {0x1ef8,0x1ef8,"Lu"}, {0x1ef9,0x1ef9,"Ll"}, {0x1efa,0x1efa,"Lu"}, {0x1efb,0x1efb,"Ll"}, {0x1efc,0x1efc,"Lu"},
{0x1efd,0x1efd,"Ll"}, {0x1efe,0x1efe,"Lu"}, {0x1eff,0x1f07,"Ll"}, {0x1f08,0x1f0f,"Lu"}, {0x1f10,0x1f15,"Ll"}, {0x1f18,0x1f1d,"Lu"},
{0x1f20,0x1f27,"Ll"}, {0x1f28,0x1f2f,"Lu"}, {0x1f30,0x1f37,"Ll"}, {0x1f38,0x1f3f,"Lu"}, {0x1f40,0x1f45,"Ll"}, {0x1f48,0x1f4d,"Lu"},
{0x1f50,0x1f57,"Ll"}, {0x1f59,0x1f59,"Lu"}, {0x1f5b,0x1f5b,"Lu"}, {0x1f5d,0x1f5d,"Lu"}, {0x1f5f,0x1f5f,"Lu"}, {0x1f60,0x1f67,"Ll"},
{0x1f68,0x1f6f,"Lu"}, {0x1f70,0x1f7d,"Ll"}, {0x1f80,0x1f87,"Ll"}, {0x1f88,0x1f8f,"Lt"}, {0x1f90,0x1f97,"Ll"}, {0x1f98,0x1f9f,"Lt"},
{0x1fa0,0x1fa7,"Ll"}, {0x1fa8,0x1faf,"Lt"}, {0x1fb0,0x1fb4,"Ll"}, {0x1fb6,0x1fb7,"Ll"}, {0x1fb8,0x1fbb,"Lu"}, {0x1fbc,0x1fbc,"Lt"},
{0x1fbd,0x1fbd,"Sk"}, {0x1fbe,0x1fbe,"Ll"}, {0x1fbf,0x1fc1,"Sk"}, {0x1fc2,0x1fc4,"Ll"}, {0x1fc6,0x1fc7,"Ll"}, {0x1fc8,0x1fcb,"Lu"},
{0x1fcc,0x1fcc,"Lt"}, {0x1fcd,0x1fcf,"Sk"}, {0x1fd0,0x1fd3,"Ll"}, {0x1fd6,0x1fd7,"Ll"}, {0x1fd8,0x1fdb,"Lu"}, {0x1fdd,0x1fdf,"Sk"},
{0x1fe0,0x1fe7,"Ll"}, {0x1fe8,0x1fec,"Lu"}, {0x1fed,0x1fef,"Sk"}, {0x1ff2,0x1ff4,"Ll"}, {0x1ff6,0x1ff7,"Ll"}, {0x1ff8,0x1ffb,"Lu"},
{0x1ffc,0x1ffc,"Lt"}, {0x1ffd,0x1ffe,"Sk"}, {0x2000,0x200a,"Zs"}, {0x200b,0x200f,"Cf"}, {0x2010,0x2015,"Pd"}, {0x2016,0x2017,"Po"},
{0x2018,0x2018,"Pi"}, {0x2019,0x2019,"Pf"}, {0x201a,0x201a,"Ps"}, {0x201b,0x201c,"Pi"}, {0x201d,0x201d,"Pf"}, {0x201e,0x201e,"Ps"},
{0x201f,0x201f,"Pi"}, {0x2020,0x2027,"Po"}, {0x2028,0x2028,"Zl"}, {0x2029,0x2029,"Zp"}, {0x202a,0x202e,"Cf"}, {0x202f,0x202f,"Zs"},
{0x2030,0x2038,"Po"}, {0x2039,0x2039,"Pi"}, {0x203a,0x203a,"Pf"}, {0x203b,0x203e,"Po"}, {0x203f,0x2040,"Pc"}, {0x2041,0x2043,"Po"},
{0x2044,0x2044,"Sm"}, {0x2045,0x2045,"Ps"}, {0x2046,0x2046,"Pe"}, {0x2047,0x2051,"Po"}, {0x2052,0x2052,"Sm"}, {0x2053,0x2053,"Po"},
{0x2054,0x2054,"Pc"}, {0x2055,0x205e,"Po"}, {0x205f,0x205f,"Zs"}, {0x2060,0x2064,"Cf"}, {0x2066,0x206f,"Cf"}, {0x2070,0x2070,"No"},
{0x2071,0x2071,"Lm"}, {0x2074,0x2079,"No"}, {0x207a,0x207c,"Sm"}, {0x207d,0x207d,"Ps"}, {0x207e,0x207e,"Pe"}, {0x207f,0x207f,"Lm"},
{0x2080,0x2089,"No"}, {0x208a,0x208c,"Sm"}, {0x208d,0x208d,"Ps"}, {0x208e,0x208e,"Pe"}, {0x2090,0x209c,"Lm"}, {0x20a0,0x20c0,"Sc"},
{0x20d0,0x20dc,"Mn"}, {0x20dd,0x20e0,"Me"}, {0x20e1,0x20e1,"Mn"}, {0x20e2,0x20e4,"Me"}, {0x20e5,0x20f0,"Mn"}, {0x2100,0x2101,"So"},
{0x2102,0x2102,"Lu"}, {0x2103,0x2106,"So"}, {0x2107,0x2107,"Lu"}, {0x2108,0x2109,"So"}, {0x210a,0x210a,"Ll"}, {0x210b,0x210d,"Lu"},
{0x210e,0x210f,"Ll"}, {0x2110,0x2112,"Lu"}, {0x2113,0x2113,"Ll"}, {0x2114,0x2114,"So"}, {0x2115,0x2115,"Lu"}, {0x2116,0x2117,"So"},
{0x2118,0x2118,"Sm"}, {0x2119,0x211d,"Lu"}, {0x211e,0x2123,"So"}, {0x2124,0x2124,"Lu"}, {0x2125,0x2125,"So"}, {0x2126,0x2126,"Lu"},
{0x2127,0x2127,"So"}, {0x2128,0x2128,"Lu"}, {0x2129,0x2129,"So"}, {0x212a,0x212d,"Lu"}, {0x212e,0x212e,"So"}, {0x212f,0x212f,"Ll"},
{0x2130,0x2133,"Lu"}, {0x2134,0x2134,"Ll"}, {0x2135,0x2138,"Lo"}, {0x2139,0x2139,"Ll"}, {0x213a,0x213b,"So"}, {0x213c,0x213d,"Ll"},
{0x213e,0x213f,"Lu"}, {0x2140,0x2144,"Sm"}, {0x2145,0x2145,"Lu"}, {0x2146,0x2149,"Ll"}, {0x214a,0x214a,"So"}, {0x214b,0x214b,"Sm"},
{0x214c,0x214d,"So"}, {0x214e,0x214e,"Ll"}, {0x214f,0x214f,"So"}, {0x2150,0x215f,"No"}, {0x2160,0x2182,"Nl"}, {0x2183,0x2183,"Lu"},
{0x2184,0x2184,"Ll"}, {0x2185,0x2188,"Nl"}, {0x2189,0x2189,"No"}, {0x218a,0x218b,"So"}, {0x2190,0x2194,"Sm"}, {0x2195,0x2199,"So"},
{0x219a,0x219b,"Sm"}, {0x219c,0x219f,"So"}, {0x21a0,0x21a0,"Sm"}, {0x21a1,0x21a2,"So"}, {0x21a3,0x21a3,"Sm"}, {0x21a4,0x21a5,"So"},
{0x21a6,0x21a6,"Sm"}, {0x21a7,0x21ad,"So"}, {0x21ae,0x21ae,"Sm"}, {0x21af,0x21cd,"So"}, {0x21ce,0x21cf,"Sm"}, {0x21d0,0x21d1,"So"},
{0x21d2,0x21d2,"Sm"}, {0x21d3,0x21d3,"So"}, {0x21d4,0x21d4,"Sm"}, {0x21d5,0x21f3,"So"}, {0x21f4,0x22ff,"Sm"}, {0x2300,0x2307,"So"},
{0x2308,0x2308,"Ps"}, {0x2309,0x2309,"Pe"}, {0x230a,0x230a,"Ps"}, {0x230b,0x230b,"Pe"}, {0x230c,0x231f,"So"}, {0x2320,0x2321,"Sm"},
{0x2322,0x2328,"So"}, {0x2329,0x2329,"Ps"}, {0x232a,0x232a,"Pe"}, {0x232b,0x237b,"So"}, {0x237c,0x237c,"Sm"}, {0x237d,0x239a,"So"},
{0x239b,0x23b3,"Sm"}, {0x23b4,0x23db,"So"}, {0x23dc,0x23e1,"Sm"}, {0x23e2,0x2429,"So"}, {0x2440,0x244a,"So"}, {0x2460,0x249b,"No"},
{0x249c,0x24e9,"So"}, {0x24ea,0x24ff,"No"}, {0x2500,0x25b6,"So"}, {0x25b7,0x25b7,"Sm"}, {0x25b8,0x25c0,"So"}, {0x25c1,0x25c1,"Sm"},
{0x25c2,0x25f7,"So"}, {0x25f8,0x25ff,"Sm"}, {0x2600,0x266e,"So"}, {0x266f,0x266f,"Sm"}, {0x2670,0x2767,"So"}, {0x2768,0x2768,"Ps"},
{0x2769,0x2769,"Pe"}, {0x276a,0x276a,"Ps"}, {0x276b,0x276b,"Pe"}, {0x276c,0x276c,"Ps"}, {0x276d,0x276d,"Pe"}, {0x276e,0x276e,"Ps"},
{0x276f,0x276f,"Pe"}, {0x2770,0x2770,"Ps"}, {0x2771,0x2771,"Pe"}, {0x2772,0x2772,"Ps"}, {0x2773,0x2773,"Pe"}, {0x2774,0x2774,"Ps"},
{0x2775,0x2775,"Pe"}, {0x2776,0x2793,"No"}, {0x2794,0x27bf,"So"}, {0x27c0,0x27c4,"Sm"}, {0x27c5,0x27c5,"Ps"}, {0x27c6,0x27c6,"Pe"},
{0x27c7,0x27e5,"Sm"}, {0x27e6,0x27e6,"Ps"}, {0x27e7,0x27e7,"Pe"}, {0x27e8,0x27e8,"Ps"}, {0x27e9,0x27e9,"Pe"}, {0x27ea,0x27ea,"Ps"},
{0x27eb,0x27eb,"Pe"}, {0x27ec,0x27ec,"Ps"}, {0x27ed,0x27ed,"Pe"}, {0x27ee,0x27ee,"Ps"}, {0x27ef,0x27ef,"Pe"}, {0x27f0,0x27ff,"Sm"},
{0x2800,0x28ff,"So"}, {0x2900,0x2982,"Sm"}, {0x2983,0x2983,"Ps"}, {0x2984,0x2984,"Pe"}, {0x2985,0x2985,"Ps"}, {0x2986,0x2986,"Pe"},
{0x2987,0x2987,"Ps"}, {0x2988,0x2988,"Pe"}, {0x2989,0x2989,"Ps"}, {0x298a,0x298a,"Pe"}, {0x298b,0x298b,"Ps"}, {0x298c,0x298c,"Pe"},
{0x298d,0x298d,"Ps"}, {0x298e,0x298e,"Pe"}, {0x298f,0x298f,"Ps"}, {0x2990,0x2990,"Pe"}, {0x2991,0x2991,"Ps"}, {0x2992,0x2992,"Pe"},
{0x2993,0x2993,"Ps"}, {0x2994,0x2994,"Pe"}, {0x2995,0x2995,"Ps"}, {0x2996,0x2996,"Pe"}, {0x2997,0x2997,"Ps"}, {0x2998,0x2998,"Pe"},
{0x2999,0x29d7,"Sm"}, {0x29d8,0x29d8,"Ps"}, {0x29d9,0x29d9,"Pe"}, {0x29da,0x29da,"Ps"}, {0x29db,0x29db,"Pe"}, {0x29dc,0x29fb,"Sm"},
{0x29fc,0x29fc,"Ps"}, {0x29fd,0x29fd,"Pe"}, {0x29fe,0x2aff,"Sm"}, {0x2b00,0x2b2f,"So"}, {0x2b30,0x2b44,"Sm"}, {0x2b45,0x2b46,"So"},
{0x2b47,0x2b4c,"Sm"}, {0x2b4d,0x2b73,"So"}, {0x2b76,0x2b95,"So"}, {0x2b97,0x2bff,"So"}, {0x2c00,0x2c2f,"Lu"}, {0x2c30,0x2c5f,"Ll"},
{0x2c60,0x2c60,"Lu"}, {0x2c61,0x2c61,"Ll"}, {0x2c62,0x2c64,"Lu"}, {0x2c65,0x2c66,"Ll"}, {0x2c67,0x2c67,"Lu"}, {0x2c68,0x2c68,"Ll"},
{0x2c69,0x2c69,"Lu"}, {0x2c6a,0x2c6a,"Ll"}, {0x2c6b,0x2c6b,"Lu"}, {0x2c6c,0x2c6c,"Ll"}, {0x2c6d,0x2c70,"Lu"}, {0x2c71,0x2c71,"Ll"},
{0x2c72,0x2c72,"Lu"}, {0x2c73,0x2c74,"Ll"}, {0x2c75,0x2c75,"Lu"}, {0x2c76,0x2c7b,"Ll"}, {0x2c7c,0x2c7d,"Lm"}, {0x2c7e,0x2c80,"Lu"},
{0x2c81,0x2c81,"Ll"}, {0x2c82,0x2c82,"Lu"}, {0x2c83,0x2c83,"Ll"}, {0x2c84,0x2c84,"Lu"}, {0x2c85,0x2c85,"Ll"}, {0x2c86,0x2c86,"Lu"},
{0x2c87,0x2c87,"Ll"}, {0x2c88,0x2c88,"Lu"}, {0x2c89,0x2c89,"Ll"}, {0x2c8a,0x2c8a,"Lu"}, {0x2c8b,0x2c8b,"Ll"}, {0x2c8c,0x2c8c,"Lu"},
{0x2c8d,0x2c8d,"Ll"}, {0x2c8e,0x2c8e,"Lu"}, {0x2c8f,0x2c8f,"Ll"}, {0x2c90,0x2c90,"Lu"}, {0x2c91,0x2c91,"Ll"}, {0x2c92,0x2c92,"Lu"},
{0x2c93,0x2c93,"Ll"}, {0x2c94,0x2c94,"Lu"}, {0x2c95,0x2c95,"Ll"}, {0x2c96,0x2c96,"Lu"}, {0x2c97,0x2c97,"Ll"}, {0x2c98,0x2c98,"Lu"},
{0x2c99,0x2c99,"Ll"}, {0x2c9a,0x2c9a,"Lu"}, {0x2c9b,0x2c9b,"Ll"}, {0x2c9c,0x2c9c,"Lu"}, {0x2c9d,0x2c9d,"Ll"}, {0x2c9e,0x2c9e,"Lu"},
{0x2c9f,0x2c9f,"Ll"}, {0x2ca0,0x2ca0,"Lu"}, {0x2ca1,0x2ca1,"Ll"}, {0x2ca2,0x2ca2,"Lu"}, {0x2ca3,0x2ca3,"Ll"}, {0x2ca4,0x2ca4,"Lu"},
{0x2ca5,0x2ca5,"Ll"}, {0x2ca6,0x2ca6,"Lu"}, {0x2ca7,0x2ca7,"Ll"}, {0x2ca8,0x2ca8,"Lu"}, {0x2ca9,0x2ca9,"Ll"}, {0x2caa,0x2caa,"Lu"},
{0x2cab,0x2cab,"Ll"}, {0x2cac,0x2cac,"Lu"}, {0x2cad,0x2cad,"Ll"}, {0x2cae,0x2cae,"Lu"}, {0x2caf,0x2caf,"Ll"}, {0x2cb0,0x2cb0,"Lu"},
{0x2cb1,0x2cb1,"Ll"}, {0x2cb2,0x2cb2,"Lu"}, {0x2cb3,0x2cb3,"Ll"}, {0x2cb4,0x2cb4,"Lu"}, {0x2cb5,0x2cb5,"Ll"}, {0x2cb6,0x2cb6,"Lu"},
{0x2cb7,0x2cb7,"Ll"}, {0x2cb8,0x2cb8,"Lu"}, {0x2cb9,0x2cb9,"Ll"}, {0x2cba,0x2cba,"Lu"}, {0x2cbb,0x2cbb,"Ll"}, {0x2cbc,0x2cbc,"Lu"},
{0x2cbd,0x2cbd,"Ll"}, {0x2cbe,0x2cbe,"Lu"}, {0x2cbf,0x2cbf,"Ll"}, {0x2cc0,0x2cc0,"Lu"}, {0x2cc1,0x2cc1,"Ll"}, {0x2cc2,0x2cc2,"Lu"},
{0x2cc3,0x2cc3,"Ll"}, {0x2cc4,0x2cc4,"Lu"}, {0x2cc5,0x2cc5,"Ll"}, {0x2cc6,0x2cc6,"Lu"}, {0x2cc7,0x2cc7,"Ll"}, {0x2cc8,0x2cc8,"Lu"},
{0x2cc9,0x2cc9,"Ll"}, {0x2cca,0x2cca,"Lu"}, {0x2ccb,0x2ccb,"Ll"}, {0x2ccc,0x2ccc,"Lu"}, {0x2ccd,0x2ccd,"Ll"}, {0x2cce,0x2cce,"Lu"},
{0x2ccf,0x2ccf,"Ll"}, {0x2cd0,0x2cd0,"Lu"}, {0x2cd1,0x2cd1,"Ll"}, {0x2cd2,0x2cd2,"Lu"}, {0x2cd3,0x2cd3,"Ll"}, {0x2cd4,0x2cd4,"Lu"},
{0x2cd5,0x2cd5,"Ll"}, {0x2cd6,0x2cd6,"Lu"}, {0x2cd7,0x2cd7,"Ll"}, {0x2cd8,0x2cd8,"Lu"}, {0x2cd9,0x2cd9,"Ll"}, {0x2cda,0x2cda,"Lu"},
{0x2cdb,0x2cdb,"Ll"}, {0x2cdc,0x2cdc,"Lu"}, {0x2cdd,0x2cdd,"Ll"}, {0x2cde,0x2cde,"Lu"}, {0x2cdf,0x2cdf,"Ll"}, {0x2ce0,0x2ce0,"Lu"},
{0x2ce1,0x2ce1,"Ll"}, {0x2ce2,0x2ce2,"Lu"}, {0x2ce3,0x2ce4,"Ll"}, {0x2ce5,0x2cea,"So"}, {0x2ceb,0x2ceb,"Lu"}, {0x2cec,0x2cec,"Ll"},
{0x2ced,0x2ced,"Lu"}, {0x2cee,0x2cee,"Ll"}, {0x2cef,0x2cf1,"Mn"}, {0x2cf2,0x2cf2,"Lu"}, {0x2cf3,0x2cf3,"Ll"}, {0x2cf9,0x2cfc,"Po"},
{0x2cfd,0x2cfd,"No"}, {0x2cfe,0x2cff,"Po"}, {0x2d00,0x2d25,"Ll"}, {0x2d27,0x2d27,"Ll"}, {0x2d2d,0x2d2d,"Ll"}, {0x2d30,0x2d67,"Lo"},
{0x2d6f,0x2d6f,"Lm"}, {0x2d70,0x2d70,"Po"}, {0x2d7f,0x2d7f,"Mn"}, {0x2d80,0x2d96,"Lo"}, {0x2da0,0x2da6,"Lo"}, {0x2da8,0x2dae,"Lo"},
{0x2db0,0x2db6,"Lo"}, {0x2db8,0x2dbe,"Lo"}, {0x2dc0,0x2dc6,"Lo"}, {0x2dc8,0x2dce,"Lo"}, {0x2dd0,0x2dd6,"Lo"}, {0x2dd8,0x2dde,"Lo"},
{0x2de0,0x2dff,"Mn"}, {0x2e00,0x2e01,"Po"}, {0x2e02,0x2e02,"Pi"}, {0x2e03,0x2e03,"Pf"}, {0x2e04,0x2e04,"Pi"}, {0x2e05,0x2e05,"Pf"},
{0x2e06,0x2e08,"Po"}, {0x2e09,0x2e09,"Pi"}, {0x2e0a,0x2e0a,"Pf"}, {0x2e0b,0x2e0b,"Po"}, {0x2e0c,0x2e0c,"Pi"}, {0x2e0d,0x2e0d,"Pf"},
{0x2e0e,0x2e16,"Po"}, {0x2e17,0x2e17,"Pd"}, {0x2e18,0x2e19,"Po"}, {0x2e1a,0x2e1a,"Pd"}, {0x2e1b,0x2e1b,"Po"}, {0x2e1c,0x2e1c,"Pi"},
{0x2e1d,0x2e1d,"Pf"}, {0x2e1e,0x2e1f,"Po"}, {0x2e20,0x2e20,"Pi"}, {0x2e21,0x2e21,"Pf"}, {0x2e22,0x2e22,"Ps"}, {0x2e23,0x2e23,"Pe"},
{0x2e24,0x2e24,"Ps"}, {0x2e25,0x2e25,"Pe"}, {0x2e26,0x2e26,"Ps"}, {0x2e27,0x2e27,"Pe"}, {0x2e28,0x2e28,"Ps"}, {0x2e29,0x2e29,"Pe"},
{0x2e2a,0x2e2e,"Po"}, {0x2e2f,0x2e2f,"Lm"}, {0x2e30,0x2e39,"Po"}, {0x2e3a,0x2e3b,"Pd"}, {0x2e3c,0x2e3f,"Po"}, {0x2e40,0x2e40,"Pd"},
{0x2e41,0x2e41,"Po"}, {0x2e42,0x2e42,"Ps"}, {0x2e43,0x2e4f,"Po"}, {0x2e50,0x2e51,"So"}, {0x2e52,0x2e54,"Po"}, {0x2e55,0x2e55,"Ps"},
{0x2e56,0x2e56,"Pe"}, {0x2e57,0x2e57,"Ps"}, {0x2e58,0x2e58,"Pe"}, {0x2e59,0x2e59,"Ps"}, {0x2e5a,0x2e5a,"Pe"}, {0x2e5b,0x2e5b,"Ps"},
{0x2e5c,0x2e5c,"Pe"}, {0x2e5d,0x2e5d,"Pd"}, {0x2e80,0x2e99,"So"}, {0x2e9b,0x2ef3,"So"}, {0x2f00,0x2fd5,"So"}, {0x2ff0,0x2fff,"So"},
{0x3000,0x3000,"Zs"}, {0x3001,0x3003,"Po"}, {0x3004,0x3004,"So"}, {0x3005,0x3005,"Lm"}, {0x3006,0x3006,"Lo"}, {0x3007,0x3007,"Nl"},
{0x3008,0x3008,"Ps"}, {0x3009,0x3009,"Pe"}, {0x300a,0x300a,"Ps"}, {0x300b,0x300b,"Pe"}, {0x300c,0x300c,"Ps"}, {0x300d,0x300d,"Pe"},
{0x300e,0x300e,"Ps"}, {0x300f,0x300f,"Pe"}, {0x3010,0x3010,"Ps"}, {0x3011,0x3011,"Pe"}, {0x3012,0x3013,"So"}, {0x3014,0x3014,"Ps"},
{0x3015,0x3015,"Pe"}, {0x3016,0x3016,"Ps"}, {0x3017,0x3017,"Pe"}, {0x3018,0x3018,"Ps"}, {0x3019,0x3019,"Pe"}, {0x301a,0x301a,"Ps"},
{0x301b,0x301b,"Pe"}, {0x301c,0x301c,"Pd"}, {0x301d,0x301d,"Ps"}, {0x301e,0x301f,"Pe"}, {0x3020,0x3020,"So"}, {0x3021,0x3029,"Nl"},
{0x302a,0x302d,"Mn"}, {0x302e,0x302f,"Mc"}, {0x3030,0x3030,"Pd"}, {0x3031,0x3035,"Lm"}, {0x3036,0x3037,"So"}, {0x3038,0x303a,"Nl"},
{0x303b,0x303b,"Lm"}, {0x303c,0x303c,"Lo"}, {0x303d,0x303d,"Po"}, {0x303e,0x303f,"So"}, {0x3041,0x3096,"Lo"}, {0x3099,0x309a,"Mn"},
{0x309b,0x309c,"Sk"}, {0x309d,0x309e,"Lm"}, {0x309f,0x309f,"Lo"}, {0x30a0,0x30a0,"Pd"}, {0x30a1,0x30fa,"Lo"}, {0x30fb,0x30fb,"Po"},
{0x30fc,0x30fe,"Lm"}, {0x30ff,0x30ff,"Lo"}, {0x3105,0x312f,"Lo"}, {0x3131,0x318e,"Lo"}, {0x3190,0x3191,"So"}, {0x3192,0x3195,"No"},
{0x3196,0x319f,"So"}, {0x31a0,0x31bf,"Lo"}, {0x31c0,0x31e5,"So"}, {0x31ef,0x31ef,"So"}, {0x31f0,0x31ff,"Lo"}, {0x3200,0x321e,"So"},
{0x3220,0x3229,"No"}, {0x322a,0x3247,"So"}, {0x3248,0x324f,"No"}, {0x3250,0x3250,"So"}, {0x3251,0x325f,"No"}, {0x3260,0x327f,"So"},
{0x3280,0x3289,"No"}, {0x328a,0x32b0,"So"}, {0x32b1,0x32bf,"No"}, {0x32c0,0x33ff,"So"}, {0x3400,0x4dbf,"Lo"}, {0x4dc0,0x4dff,"So"},
{0x4e00,0xa014,"Lo"}, {0xa015,0xa015,"Lm"}, {0xa016,0xa48c,"Lo"}, {0xa490,0xa4c6,"So"}, {0xa4d0,0xa4f7,"Lo"}, {0xa4f8,0xa4fd,"Lm"},
{0xa4fe,0xa4ff,"Po"}, {0xa500,0xa60b,"Lo"}, {0xa60c,0xa60c,"Lm"}, {0xa60d,0xa60f,"Po"}, {0xa610,0xa61f,"Lo"}, {0xa620,0xa629,"Nd"},
{0xa62a,0xa62b,"Lo"}, {0xa640,0xa640,"Lu"}, {0xa641,0xa641,"Ll"}, {0xa642,0xa642,"Lu"}, {0xa643,0xa643,"Ll"}, {0xa644,0xa644,"Lu"},
{0xa645,0xa645,"Ll"}, {0xa646,0xa646,"Lu"}, {0xa647,0xa647,"Ll"}, {0xa648,0xa648,"Lu"}, {0xa649,0xa649,"Ll"}, {0xa64a,0xa64a,"Lu"},
{0xa64b,0xa64b,"Ll"}, {0xa64c,0xa64c,"Lu"}, {0xa64d,0xa64d,"Ll"}, {0xa64e,0xa64e,"Lu"}, {0xa64f,0xa64f,"Ll"}, {0xa650,0xa650,"Lu"},
{0xa651,0xa651,"Ll"}, {0xa652,0xa652,"Lu"}, {0xa653,0xa653,"Ll"}, {0xa654,0xa654,"Lu"}, {0xa655,0xa655,"Ll"}, {0xa656,0xa656,"Lu"},
{0xa657,0xa657,"Ll"}, {0xa658,0xa658,"Lu"}, {0xa659,0xa659,"Ll"}, {0xa65a,0xa65a,"Lu"}, {0xa65b,0xa65b,"Ll"}, {0xa65c,0xa65c,"Lu"},
{0xa65d,0xa65d,"Ll"}, {0xa65e,0xa65e,"Lu"}, {0xa65f,0xa65f,"Ll"}, {0xa660,0xa660,"Lu"}, {0xa661,0xa661,"Ll"}, {0xa662,0xa662,"Lu"},
{0xa663,0xa663,"Ll"}, {0xa664,0xa664,"Lu"}, {0xa665,0xa665,"Ll"}, {0xa666,0xa666,"Lu"}, {0xa667,0xa667,"Ll"}, {0xa668,0xa668,"Lu"},
{0xa669,0xa669,"Ll"}, {0xa66a,0xa66a,"Lu"}, {0xa66b,0xa66b,"Ll"}, {0xa66c,0xa66c,"Lu"}, {0xa66d,0xa66d,"Ll"}, {0xa66e,0xa66e,"Lo"},
{0xa66f,0xa66f,"Mn"}, {0xa670,0xa672,"Me"}, {0xa673,0xa673,"Po"}, {0xa674,0xa67d,"Mn"}, {0xa67e,0xa67e,"Po"}, {0xa67f,0xa67f,"Lm"},
{0xa680,0xa680,"Lu"}, {0xa681,0xa681,"Ll"}, {0xa682,0xa682,"Lu"}, {0xa683,0xa683,"Ll"}, {0xa684,0xa684,"Lu"}, {0xa685,0xa685,"Ll"},
{0xa686,0xa686,"Lu"}, {0xa687,0xa687,"Ll"}, {0xa688,0xa688,"Lu"}, {0xa689,0xa689,"Ll"}, {0xa68a,0xa68a,"Lu"}, {0xa68b,0xa68b,"Ll"},
{0xa68c,0xa68c,"Lu"}, {0xa68d,0xa68d,"Ll"}, {0xa68e,0xa68e,"Lu"}, {0xa68f,0xa68f,"Ll"}, {0xa690,0xa690,"Lu"}, {0xa691,0xa691,"Ll"},
{0xa692,0xa692,"Lu"}, {0xa693,0xa693,"Ll"}, {0xa694,0xa694,"Lu"}, {0xa695,0xa695,"Ll"}, {0xa696,0xa696,"Lu"}, {0xa697,0xa697,"Ll"},
{0xa698,0xa698,"Lu"}, {0xa699,0xa699,"Ll"}, {0xa69a,0xa69a,"Lu"}, {0xa69b,0xa69b,"Ll"}, {0xa69c,0xa69d,"Lm"}, {0xa69e,0xa69f,"Mn"},
{0xa6a0,0xa6e5,"Lo"}, {0xa6e6,0xa6ef,"Nl"}, {0xa6f0,0xa6f1,"Mn"}, {0xa6f2,0xa6f7,"Po"}, {0xa700,0xa716,"Sk"}, {0xa717,0xa71f,"Lm"},
{0xa720,0xa721,"Sk"}, {0xa722,0xa722,"Lu"}, {0xa723,0xa723,"Ll"}, {0xa724,0xa724,"Lu"}, {0xa725,0xa725,"Ll"}, {0xa726,0xa726,"Lu"},
{0xa727,0xa727,"Ll"}, {0xa728,0xa728,"Lu"}, {0xa729,0xa729,"Ll"}, {0xa72a,0xa72a,"Lu"}, {0xa72b,0xa72b,"Ll"}, {0xa72c,0xa72c,"Lu"},
{0xa72d,0xa72d,"Ll"}, {0xa72e,0xa72e,"Lu"}, {0xa72f,0xa731,"Ll"}, {0xa732,0xa732,"Lu"}, {0xa733,0xa733,"Ll"}, {0xa734,0xa734,"Lu"},
{0xa735,0xa735,"Ll"}, {0xa736,0xa736,"Lu"}, {0xa737,0xa737,"Ll"}, {0xa738,0xa738,"Lu"}, {0xa739,0xa739,"Ll"}, {0xa73a,0xa73a,"Lu"},
{0xa73b,0xa73b,"Ll"}, {0xa73c,0xa73c,"Lu"}, {0xa73d,0xa73d,"Ll"}, {0xa73e,0xa73e,"Lu"}, {0xa73f,0xa73f,"Ll"}, {0xa740,0xa740,"Lu"},
{0xa741,0xa741,"Ll"}, {0xa742,0xa742,"Lu"}, {0xa743,0xa743,"Ll"}, {0xa744,0xa744,"Lu"}, {0xa745,0xa745,"Ll"}, {0xa746,0xa746,"Lu"},
{0xa747,0xa747,"Ll"}, {0xa748,0xa748,"Lu"}, {0xa749,0xa749,"Ll"}, {0xa74a,0xa74a,"Lu"}, {0xa74b,0xa74b,"Ll"}, {0xa74c,0xa74c,"Lu"},
{0xa74d,0xa74d,"Ll"}, {0xa74e,0xa74e,"Lu"}, {0xa74f,0xa74f,"Ll"}, {0xa750,0xa750,"Lu"}, {0xa751,0xa751,"Ll"}, {0xa752,0xa752,"Lu"},
{0xa753,0xa753,"Ll"}, {0xa754,0xa754,"Lu"}, {0xa755,0xa755,"Ll"}, {0xa756,0xa756,"Lu"}, {0xa757,0xa757,"Ll"}, {0xa758,0xa758,"Lu"},
{0xa759,0xa759,"Ll"}, {0xa75a,0xa75a,"Lu"}, {0xa75b,0xa75b,"Ll"}, {0xa75c,0xa75c,"Lu"}, {0xa75d,0xa75d,"Ll"}, {0xa75e,0xa75e,"Lu"},
{0xa75f,0xa75f,"Ll"}, {0xa760,0xa760,"Lu"}, {0xa761,0xa761,"Ll"}, {0xa762,0xa762,"Lu"}, {0xa763,0xa763,"Ll"}, {0xa764,0xa764,"Lu"},
{0xa765,0xa765,"Ll"}, {0xa766,0xa766,"Lu"}, {0xa767,0xa767,"Ll"}, {0xa768,0xa768,"Lu"}, {0xa769,0xa769,"Ll"}, {0xa76a,0xa76a,"Lu"},
{0xa76b,0xa76b,"Ll"}, {0xa76c,0xa76c,"Lu"}, {0xa76d,0xa76d,"Ll"}, {0xa76e,0xa76e,"Lu"}, {0xa76f,0xa76f,"Ll"}, {0xa770,0xa770,"Lm"},
{0xa771,0xa778,"Ll"}, {0xa779,0xa779,"Lu"}, {0xa77a,0xa77a,"Ll"}, {0xa77b,0xa77b,"Lu"}, {0xa77c,0xa77c,"Ll"}, {0xa77d,0xa77e,"Lu"},
{0xa77f,0xa77f,"Ll"}, {0xa780,0xa780,"Lu"}, {0xa781,0xa781,"Ll"}, {0xa782,0xa782,"Lu"}, {0xa783,0xa783,"Ll"}, {0xa784,0xa784,"Lu"},
{0xa785,0xa785,"Ll"}, {0xa786,0xa786,"Lu"}, {0xa787,0xa787,"Ll"}, {0xa788,0xa788,"Lm"}, {0xa789,0xa78a,"Sk"}, {0xa78b,0xa78b,"Lu"},
{0xa78c,0xa78c,"Ll"}, {0xa78d,0xa78d,"Lu"}, {0xa78e,0xa78e,"Ll"}, {0xa78f,0xa78f,"Lo"}, {0xa790,0xa790,"Lu"}, {0xa791,0xa791,"Ll"},
{0xa792,0xa792,"Lu"}, {0xa793,0xa795,"Ll"}, {0xa796,0xa796,"Lu"}, {0xa797,0xa797,"Ll"}, {0xa798,0xa798,"Lu"}, {0xa799,0xa799,"Ll"},
{0xa79a,0xa79a,"Lu"}, {0xa79b,0xa79b,"Ll"}, {0xa79c,0xa79c,"Lu"}, {0xa79d,0xa79d,"Ll"}, {0xa79e,0xa79e,"Lu"}, {0xa79f,0xa79f,"Ll"},
{0xa7a0,0xa7a0,"Lu"}, {0xa7a1,0xa7a1,"Ll"}, {0xa7a2,0xa7a2,"Lu"}, {0xa7a3,0xa7a3,"Ll"}, {0xa7a4,0xa7a4,"Lu"}, {0xa7a5,0xa7a5,"Ll"},
{0xa7a6,0xa7a6,"Lu"}, {0xa7a7,0xa7a7,"Ll"}, {0xa7a8,0xa7a8,"Lu"}, {0xa7a9,0xa7a9,"Ll"}, {0xa7aa,0xa7ae,"Lu"}, {0xa7af,0xa7af,"Ll"},
{0xa7b0,0xa7b4,"Lu"}, {0xa7b5,0xa7b5,"Ll"}, {0xa7b6,0xa7b6,"Lu"}, {0xa7b7,0xa7b7,"Ll"}, {0xa7b8,0xa7b8,"Lu"}, {0xa7b9,0xa7b9,"Ll"},
{0xa7ba,0xa7ba,"Lu"}, {0xa7bb,0xa7bb,"Ll"}, {0xa7bc,0xa7bc,"Lu"}, {0xa7bd,0xa7bd,"Ll"}, {0xa7be,0xa7be,"Lu"}, {0xa7bf,0xa7bf,"Ll"},
{0xa7c0,0xa7c0,"Lu"}, {0xa7c1,0xa7c1,"Ll"}, {0xa7c2,0xa7c2,"Lu"}, {0xa7c3,0xa7c3,"Ll"}, {0xa7c4,0xa7c7,"Lu"}, {0xa7c8,0xa7c8,"Ll"},
{0xa7c9,0xa7c9,"Lu"}, {0xa7ca,0xa7ca,"Ll"}, {0xa7cb,0xa7cc,"Lu"}, {0xa7cd,0xa7cd,"Ll"}, {0xa7d0,0xa7d0,"Lu"}, {0xa7d1,0xa7d1,"Ll"},
{0xa7d3,0xa7d3,"Ll"}, {0xa7d5,0xa7d5,"Ll"}, {0xa7d6,0xa7d6,"Lu"}, {0xa7d7,0xa7d7,"Ll"}, {0xa7d8,0xa7d8,"Lu"}, {0xa7d9,0xa7d9,"Ll"},
{0xa7da,0xa7da,"Lu"}, {0xa7db,0xa7db,"Ll"}, {0xa7dc,0xa7dc,"Lu"}, {0xa7f2,0xa7f4,"Lm"}, {0xa7f5,0xa7f5,"Lu"}, {0xa7f6,0xa7f6,"Ll"},
{0xa7f7,0xa7f7,"Lo"}, {0xa7f8,0xa7f9,"Lm"}, {0xa7fa,0xa7fa,"Ll"}, {0xa7fb,0xa801,"Lo"}, {0xa802,0xa802,"Mn"}, {0xa803,0xa805,"Lo"},
{0xa806,0xa806,"Mn"}, {0xa807,0xa80a,"Lo"}, {0xa80b,0xa80b,"Mn"}, {0xa80c,0xa822,"Lo"}, {0xa823,0xa824,"Mc"}, {0xa825,0xa826,"Mn"},
{0xa827,0xa827,"Mc"}, {0xa828,0xa82b,"So"}, {0xa82c,0xa82c,"Mn"}, {0xa830,0xa835,"No"}, {0xa836,0xa837,"So"}, {0xa838,0xa838,"Sc"},
{0xa839,0xa839,"So"}, {0xa840,0xa873,"Lo"}, {0xa874,0xa877,"Po"}, {0xa880,0xa881,"Mc"}, {0xa882,0xa8b3,"Lo"}, {0xa8b4,0xa8c3,"Mc"},
{0xa8c4,0xa8c5,"Mn"}, {0xa8ce,0xa8cf,"Po"}, {0xa8d0,0xa8d9,"Nd"}, {0xa8e0,0xa8f1,"Mn"}, {0xa8f2,0xa8f7,"Lo"}, {0xa8f8,0xa8fa,"Po"},
{0xa8fb,0xa8fb,"Lo"}, {0xa8fc,0xa8fc,"Po"}, {0xa8fd,0xa8fe,"Lo"}, {0xa8ff,0xa8ff,"Mn"}, {0xa900,0xa909,"Nd"}, {0xa90a,0xa925,"Lo"},
{0xa926,0xa92d,"Mn"}, {0xa92e,0xa92f,"Po"}, {0xa930,0xa946,"Lo"}, {0xa947,0xa951,"Mn"}, {0xa952,0xa953,"Mc"}, {0xa95f,0xa95f,"Po"},
{0xa960,0xa97c,"Lo"}, {0xa980,0xa982,"Mn"}, {0xa983,0xa983,"Mc"}, {0xa984,0xa9b2,"Lo"}, {0xa9b3,0xa9b3,"Mn"}, {0xa9b4,0xa9b5,"Mc"},
{0xa9b6,0xa9b9,"Mn"}, {0xa9ba,0xa9bb,"Mc"}, {0xa9bc,0xa9bd,"Mn"}, {0xa9be,0xa9c0,"Mc"}, {0xa9c1,0xa9cd,"Po"}, {0xa9cf,0xa9cf,"Lm"},
{0xa9d0,0xa9d9,"Nd"}, {0xa9de,0xa9df,"Po"}, {0xa9e0,0xa9e4,"Lo"}, {0xa9e5,0xa9e5,"Mn"}, {0xa9e6,0xa9e6,"Lm"}, {0xa9e7,0xa9ef,"Lo"},
{0xa9f0,0xa9f9,"Nd"}, {0xa9fa,0xa9fe,"Lo"}, {0xaa00,0xaa28,"Lo"}, {0xaa29,0xaa2e,"Mn"}, {0xaa2f,0xaa30,"Mc"}, {0xaa31,0xaa32,"Mn"},
{0xaa33,0xaa34,"Mc"}, {0xaa35,0xaa36,"Mn"}, {0xaa40,0xaa42,"Lo"}, {0xaa43,0xaa43,"Mn"}, {0xaa44,0xaa4b,"Lo"}, {0xaa4c,0xaa4c,"Mn"},
{0xaa4d,0xaa4d,"Mc"}, {0xaa50,0xaa59,"Nd"}, {0xaa5c,0xaa5f,"Po"}, {0xaa60,0xaa6f,"Lo"}, {0xaa70,0xaa70,"Lm"}, {0xaa71,0xaa76,"Lo"},
{0xaa77,0xaa79,"So"}, {0xaa7a,0xaa7a,"Lo"}, {0xaa7b,0xaa7b,"Mc"}, {0xaa7c,0xaa7c,"Mn"}, {0xaa7d,0xaa7d,"Mc"}, {0xaa7e,0xaaaf,"Lo"},
{0xaab0,0xaab0,"Mn"}, {0xaab1,0xaab1,"Lo"}, {0xaab2,0xaab4,"Mn"}, {0xaab5,0xaab6,"Lo"}, {0xaab7,0xaab8,"Mn"}, {0xaab9,0xaabd,"Lo"},
{0xaabe,0xaabf,"Mn"}, {0xaac0,0xaac0,"Lo"}, {0xaac1,0xaac1,"Mn"}, {0xaac2,0xaac2,"Lo"}, {0xaadb,0xaadc,"Lo"}, {0xaadd,0xaadd,"Lm"},
{0xaade,0xaadf,"Po"}, {0xaae0,0xaaea,"Lo"}, {0xaaeb,0xaaeb,"Mc"}, {0xaaec,0xaaed,"Mn"}, {0xaaee,0xaaef,"Mc"}, {0xaaf0,0xaaf1,"Po"},
{0xaaf2,0xaaf2,"Lo"}, {0xaaf3,0xaaf4,"Lm"}, {0xaaf5,0xaaf5,"Mc"}, {0xaaf6,0xaaf6,"Mn"}, {0xab01,0xab06,"Lo"}, {0xab09,0xab0e,"Lo"},
{0xab11,0xab16,"Lo"}, {0xab20,0xab26,"Lo"}, {0xab28,0xab2e,"Lo"}, {0xab30,0xab5a,"Ll"}, {0xab5b,0xab5b,"Sk"}, {0xab5c,0xab5f,"Lm"},
{0xab60,0xab68,"Ll"}, {0xab69,0xab69,"Lm"}, {0xab6a,0xab6b,"Sk"}, {0xab70,0xabbf,"Ll"}, {0xabc0,0xabe2,"Lo"}, {0xabe3,0xabe4,"Mc"},
{0xabe5,0xabe5,"Mn"}, {0xabe6,0xabe7,"Mc"}, {0xabe8,0xabe8,"Mn"}, {0xabe9,0xabea,"Mc"}, {0xabeb,0xabeb,"Po"}, {0xabec,0xabec,"Mc"},
{0xabed,0xabed,"Mn"}, {0xabf0,0xabf9,"Nd"}, {0xac00,0xd7a3,"Lo"}, {0xd7b0,0xd7c6,"Lo"}, {0xd7cb,0xd7fb,"Lo"}, {0xd800,0xdfff,"Cs"},
{0xe000,0xf8ff,"Co"}, {0xf900,0xfa6d,"Lo"}, {0xfa70,0xfad9,"Lo"}, {0xfb00,0xfb06,"Ll"}, {0xfb13,0xfb17,"Ll"}, {0xfb1d,0xfb1d,"Lo"},
{0xfb1e,0xfb1e,"Mn"}, {0xfb1f,0xfb28,"Lo"}, {0xfb29,0xfb29,"Sm"}, {0xfb2a,0xfb36,"Lo"}, {0xfb38,0xfb3c,"Lo"}, {0xfb3e,0xfb3e,"Lo"},
{0xfb40,0xfb41,"Lo"}, {0xfb43,0xfb44,"Lo"}, {0xfb46,0xfbb1,"Lo"}, {0xfbb2,0xfbc2,"Sk"}, {0xfbd3,0xfd3d,"Lo"}, {0xfd3e,0xfd3e,"Pe"},
{0xfd3f,0xfd3f,"Ps"}, {0xfd40,0xfd4f,"So"}, {0xfd50,0xfd8f,"Lo"}, {0xfd92,0xfdc7,"Lo"}, {0xfdcf,0xfdcf,"So"}, {0xfdf0,0xfdfb,"Lo"},
{0xfdfc,0xfdfc,"Sc"}, {0xfdfd,0xfdff,"So"}, {0xfe00,0xfe0f,"Mn"}, {0xfe10,0xfe16,"Po"}, {0xfe17,0xfe17,"Ps"}, {0xfe18,0xfe18,"Pe"},
{0xfe19,0xfe19,"Po"}, {0xfe20,0xfe2f,"Mn"}, {0xfe30,0xfe30,"Po"}, {0xfe31,0xfe32,"Pd"}, {0xfe33,0xfe34,"Pc"}, {0xfe35,0xfe35,"Ps"},
{0xfe36,0xfe36,"Pe"}, {0xfe37,0xfe37,"Ps"}, {0xfe38,0xfe38,"Pe"}, {0xfe39,0xfe39,"Ps"}, {0xfe3a,0xfe3a,"Pe"}, {0xfe3b,0xfe3b,"Ps"},
{0xfe3c,0xfe3c,"Pe"}, {0xfe3d,0xfe3d,"Ps"}, {0xfe3e,0xfe3e,"Pe"}, {0xfe3f,0xfe3f,"Ps"}, {0xfe40,0xfe40,"Pe"}, {0xfe41,0xfe41,"Ps"},
{0xfe42,0xfe42,"Pe"}, {0xfe43,0xfe43,"Ps"}, {0xfe44,0xfe44,"Pe"}, {0xfe45,0xfe46,"Po"}, {0xfe47,0xfe47,"Ps"}, {0xfe48,0xfe48,"Pe"},
{0xfe49,0xfe4c,"Po"}, {0xfe4d,0xfe4f,"Pc"}, {0xfe50,0xfe52,"Po"}, {0xfe54,0xfe57,"Po"}, {0xfe58,0xfe58,"Pd"}, {0xfe59,0xfe59,"Ps"},
{0xfe5a,0xfe5a,"Pe"}, {0xfe5b,0xfe5b,"Ps"}, {0xfe5c,0xfe5c,"Pe"}, {0xfe5d,0xfe5d,"Ps"}, {0xfe5e,0xfe5e,"Pe"}, {0xfe5f,0xfe61,"Po"},
{0xfe62,0xfe62,"Sm"}, {0xfe63,0xfe63,"Pd"}, {0xfe64,0xfe66,"Sm"}, {0xfe68,0xfe68,"Po"}, {0xfe69,0xfe69,"Sc"}, {0xfe6a,0xfe6b,"Po"},
{0xfe70,0xfe74,"Lo"}, {0xfe76,0xfefc,"Lo"}, {0xfeff,0xfeff,"Cf"}, {0xff01,0xff03,"Po"}, {0xff04,0xff04,"Sc"}, {0xff05,0xff07,"Po"},
{0xff08,0xff08,"Ps"}, {0xff09,0xff09,"Pe"}, {0xff0a,0xff0a,"Po"}, {0xff0b,0xff0b,"Sm"}, {0xff0c,0xff0c,"Po"}, {0xff0d,0xff0d,"Pd"},
{0xff0e,0xff0f,"Po"}, {0xff10,0xff19,"Nd"}, {0xff1a,0xff1b,"Po"}, {0xff1c,0xff1e,"Sm"}, {0xff1f,0xff20,"Po"}, {0xff21,0xff3a,"Lu"},
{0xff3b,0xff3b,"Ps"}, {0xff3c,0xff3c,"Po"}, {0xff3d,0xff3d,"Pe"}, {0xff3e,0xff3e,"Sk"}, {0xff3f,0xff3f,"Pc"}, {0xff40,0xff40,"Sk"},
{0xff41,0xff5a,"Ll"}, {0xff5b,0xff5b,"Ps"}, {0xff5c,0xff5c,"Sm"}, {0xff5d,0xff5d,"Pe"}, {0xff5e,0xff5e,"Sm"}, {0xff5f,0xff5f,"Ps"},
{0xff60,0xff60,"Pe"}, {0xff61,0xff61,"Po"}, {0xff62,0xff62,"Ps"}, {0xff63,0xff63,"Pe"}, {0xff64,0xff65,"Po"}, {0xff66,0xff6f,"Lo"},
{0xff70,0xff70,"Lm"}, {0xff71,0xff9d,"Lo"}, {0xff9e,0xff9f,"Lm"}, {0xffa0,0xffbe,"Lo"}, {0xffc2,0xffc7,"Lo"}, {0xffca,0xffcf,"Lo"},
{0xffd2,0xffd7,"Lo"}, {0xffda,0xffdc,"Lo"}, {0xffe0,0xffe1,"Sc"}, {0xffe2,0xffe2,"Sm"}, {0xffe3,0xffe3,"Sk"}, {0xffe4,0xffe4,"So"},
{0xffe5,0xffe6,"Sc"}, {0xffe8,0xffe8,"So"}, {0xffe9,0xffec,"Sm"}, {0xffed,0xffee,"So"}, {0xfff9,0xfffb,"Cf"}, {0xfffc,0xfffd,"So"},
{0x10000,0x1000b,"Lo"}, {0x1000d,0x10026,"Lo"}, {0x10028,0x1003a,"Lo"}, {0x1003c,0x1003d,"Lo"}, {0x1003f,0x1004d,"Lo"}, {0x10050,0x1005d,"Lo"},
{0x10080,0x100fa,"Lo"}, {0x10100,0x10102,"Po"}, {0x10107,0x10133,"No"}, {0x10137,0x1013f,"So"}, {0x10140,0x10174,"Nl"}, {0x10175,0x10178,"No"},
{0x10179,0x10189,"So"}, {0x1018a,0x1018b,"No"}, {0x1018c,0x1018e,"So"}, {0x10190,0x1019c,"So"}, {0x101a0,0x101a0,"So"}, {0x101d0,0x101fc,"So"},
{0x101fd,0x101fd,"Mn"}, {0x10280,0x1029c,"Lo"}, {0x102a0,0x102d0,"Lo"}, {0x102e0,0x102e0,"Mn"}, {0x102e1,0x102fb,"No"}, {0x10300,0x1031f,"Lo"},
{0x10320,0x10323,"No"}, {0x1032d,0x10340,"Lo"}, {0x10341,0x10341,"Nl"}, {0x10342,0x10349,"Lo"}, {0x1034a,0x1034a,"Nl"}, {0x10350,0x10375,"Lo"},
{0x10376,0x1037a,"Mn"}, {0x10380,0x1039d,"Lo"}, {0x1039f,0x1039f,"Po"}, {0x103a0,0x103c3,"Lo"}, {0x103c8,0x103cf,"Lo"}, {0x103d0,0x103d0,"Po"},
{0x103d1,0x103d5,"Nl"}, {0x10400,0x10427,"Lu"}, {0x10428,0x1044f,"Ll"}, {0x10450,0x1049d,"Lo"}, {0x104a0,0x104a9,"Nd"}, {0x104b0,0x104d3,"Lu"},
{0x104d8,0x104fb,"Ll"}, {0x10500,0x10527,"Lo"}, {0x10530,0x10563,"Lo"}, {0x1056f,0x1056f,"Po"}, {0x10570,0x1057a,"Lu"}, {0x1057c,0x1058a,"Lu"},
{0x1058c,0x10592,"Lu"}, {0x10594,0x10595,"Lu"}, {0x10597,0x105a1,"Ll"}, {0x105a3,0x105b1,"Ll"}, {0x105b3,0x105b9,"Ll"}, {0x105bb,0x105bc,"Ll"},
{0x105c0,0x105f3,"Lo"}, {0x10600,0x10736,"Lo"}, {0x10740,0x10755,"Lo"}, {0x10760,0x10767,"Lo"}, {0x10780,0x10785,"Lm"}, {0x10787,0x107b0,"Lm"},
{0x107b2,0x107ba,"Lm"}, {0x10800,0x10805,"Lo"}, {0x10808,0x10808,"Lo"}, {0x1080a,0x10835,"Lo"}, {0x10837,0x10838,"Lo"}, {0x1083c,0x1083c,"Lo"},
{0x1083f,0x10855,"Lo"}, {0x10857,0x10857,"Po"}, {0x10858,0x1085f,"No"}, {0x10860,0x10876,"Lo"}, {0x10877,0x10878,"So"}, {0x10879,0x1087f,"No"},
{0x10880,0x1089e,"Lo"}, {0x108a7,0x108af,"No"}, {0x108e0,0x108f2,"Lo"}, {0x108f4,0x108f5,"Lo"}, {0x108fb,0x108ff,"No"}, {0x10900,0x10915,"Lo"},
{0x10916,0x1091b,"No"}, {0x1091f,0x1091f,"Po"}, {0x10920,0x10939,"Lo"}, {0x1093f,0x1093f,"Po"}, {0x10980,0x109b7,"Lo"}, {0x109bc,0x109bd,"No"},
{0x109be,0x109bf,"Lo"}, {0x109c0,0x109cf,"No"}, {0x109d2,0x109ff,"No"}, {0x10a00,0x10a00,"Lo"}, {0x10a01,0x10a03,"Mn"}, {0x10a05,0x10a06,"Mn"},
{0x10a0c,0x10a0f,"Mn"}, {0x10a10,0x10a13,"Lo"}, {0x10a15,0x10a17,"Lo"}, {0x10a19,0x10a35,"Lo"}, {0x10a38,0x10a3a,"Mn"}, {0x10a3f,0x10a3f,"Mn"},
{0x10a40,0x10a48,"No"}, {0x10a50,0x10a58,"Po"}, {0x10a60,0x10a7c,"Lo"}, {0x10a7d,0x10a7e,"No"}, {0x10a7f,0x10a7f,"Po"}, {0x10a80,0x10a9c,"Lo"},
{0x10a9d,0x10a9f,"No"}, {0x10ac0,0x10ac7,"Lo"}, {0x10ac8,0x10ac8,"So"}, {0x10ac9,0x10ae4,"Lo"}, {0x10ae5,0x10ae6,"Mn"}, {0x10aeb,0x10aef,"No"},
{0x10af0,0x10af6,"Po"}, {0x10b00,0x10b35,"Lo"}, {0x10b39,0x10b3f,"Po"}, {0x10b40,0x10b55,"Lo"}, {0x10b58,0x10b5f,"No"}, {0x10b60,0x10b72,"Lo"},
{0x10b78,0x10b7f,"No"}, {0x10b80,0x10b91,"Lo"}, {0x10b99,0x10b9c,"Po"}, {0x10ba9,0x10baf,"No"}, {0x10c00,0x10c48,"Lo"}, {0x10c80,0x10cb2,"Lu"},
{0x10cc0,0x10cf2,"Ll"}, {0x10cfa,0x10cff,"No"}, {0x10d00,0x10d23,"Lo"}, {0x10d24,0x10d27,"Mn"}, {0x10d30,0x10d39,"Nd"}, {0x10d40,0x10d49,"Nd"},
{0x10d4a,0x10d4d,"Lo"}, {0x10d4e,0x10d4e,"Lm"}, {0x10d4f,0x10d4f,"Lo"}, {0x10d50,0x10d65,"Lu"}, {0x10d69,0x10d6d,"Mn"}, {0x10d6e,0x10d6e,"Pd"},
{0x10d6f,0x10d6f,"Lm"}, {0x10d70,0x10d85,"Ll"}, {0x10d8e,0x10d8f,"Sm"}, {0x10e60,0x10e7e,"No"}, {0x10e80,0x10ea9,"Lo"}, {0x10eab,0x10eac,"Mn"},
{0x10ead,0x10ead,"Pd"}, {0x10eb0,0x10eb1,"Lo"}, {0x10ec2,0x10ec4,"Lo"}, {0x10efc,0x10eff,"Mn"}, {0x10f00,0x10f1c,"Lo"}, {0x10f1d,0x10f26,"No"},
{0x10f27,0x10f27,"Lo"}, {0x10f30,0x10f45,"Lo"}, {0x10f46,0x10f50,"Mn"}, {0x10f51,0x10f54,"No"}, {0x10f55,0x10f59,"Po"}, {0x10f70,0x10f81,"Lo"},
{0x10f82,0x10f85,"Mn"}, {0x10f86,0x10f89,"Po"}, {0x10fb0,0x10fc4,"Lo"}, {0x10fc5,0x10fcb,"No"}, {0x10fe0,0x10ff6,"Lo"}, {0x11000,0x11000,"Mc"},
{0x11001,0x11001,"Mn"}, {0x11002,0x11002,"Mc"}, {0x11003,0x11037,"Lo"}, {0x11038,0x11046,"Mn"}, {0x11047,0x1104d,"Po"}, {0x11052,0x11065,"No"},
{0x11066,0x1106f,"Nd"}, {0x11070,0x11070,"Mn"}, {0x11071,0x11072,"Lo"}, {0x11073,0x11074,"Mn"}, {0x11075,0x11075,"Lo"}, {0x1107f,0x11081,"Mn"},
{0x11082,0x11082,"Mc"}, {0x11083,0x110af,"Lo"}, {0x110b0,0x110b2,"Mc"}, {0x110b3,0x110b6,"Mn"}, {0x110b7,0x110b8,"Mc"}, {0x110b9,0x110ba,"Mn"},
{0x110bb,0x110bc,"Po"}, {0x110bd,0x110bd,"Cf"}, {0x110be,0x110c1,"Po"}, {0x110c2,0x110c2,"Mn"}, {0x110cd,0x110cd,"Cf"}, {0x110d0,0x110e8,"Lo"},
{0x110f0,0x110f9,"Nd"}, {0x11100,0x11102,"Mn"}, {0x11103,0x11126,"Lo"}, {0x11127,0x1112b,"Mn"}, {0x1112c,0x1112c,"Mc"}, {0x1112d,0x11134,"Mn"},
{0x11136,0x1113f,"Nd"}, {0x11140,0x11143,"Po"}, {0x11144,0x11144,"Lo"}, {0x11145,0x11146,"Mc"}, {0x11147,0x11147,"Lo"}, {0x11150,0x11172,"Lo"},
{0x11173,0x11173,"Mn"}, {0x11174,0x11175,"Po"}, {0x11176,0x11176,"Lo"}, {0x11180,0x11181,"Mn"}, {0x11182,0x11182,"Mc"}, {0x11183,0x111b2,"Lo"},
{0x111b3,0x111b5,"Mc"}, {0x111b6,0x111be,"Mn"}, {0x111bf,0x111c0,"Mc"}, {0x111c1,0x111c4,"Lo"}, {0x111c5,0x111c8,"Po"}, {0x111c9,0x111cc,"Mn"},
{0x111cd,0x111cd,"Po"}, {0x111ce,0x111ce,"Mc"}, {0x111cf,0x111cf,"Mn"}, {0x111d0,0x111d9,"Nd"}, {0x111da,0x111da,"Lo"}, {0x111db,0x111db,"Po"},
{0x111dc,0x111dc,"Lo"}, {0x111dd,0x111df,"Po"}, {0x111e1,0x111f4,"No"}, {0x11200,0x11211,"Lo"}, {0x11213,0x1122b,"Lo"}, {0x1122c,0x1122e,"Mc"},
{0x1122f,0x11231,"Mn"}, {0x11232,0x11233,"Mc"}, {0x11234,0x11234,"Mn"}, {0x11235,0x11235,"Mc"}, {0x11236,0x11237,"Mn"}, {0x11238,0x1123d,"Po"},
{0x1123e,0x1123e,"Mn"}, {0x1123f,0x11240,"Lo"}, {0x11241,0x11241,"Mn"}, {0x11280,0x11286,"Lo"}, {0x11288,0x11288,"Lo"}, {0x1128a,0x1128d,"Lo"},
{0x1128f,0x1129d,"Lo"}, {0x1129f,0x112a8,"Lo"}, {0x112a9,0x112a9,"Po"}, {0x112b0,0x112de,"Lo"}, {0x112df,0x112df,"Mn"}, {0x112e0,0x112e2,"Mc"},
{0x112e3,0x112ea,"Mn"}, {0x112f0,0x112f9,"Nd"}, {0x11300,0x11301,"Mn"}, {0x11302,0x11303,"Mc"}, {0x11305,0x1130c,"Lo"}, {0x1130f,0x11310,"Lo"},
{0x11313,0x11328,"Lo"}, {0x1132a,0x11330,"Lo"}, {0x11332,0x11333,"Lo"}, {0x11335,0x11339,"Lo"}, {0x1133b,0x1133c,"Mn"}, {0x1133d,0x1133d,"Lo"},
{0x1133e,0x1133f,"Mc"}, {0x11340,0x11340,"Mn"}, {0x11341,0x11344,"Mc"}, {0x11347,0x11348,"Mc"}, {0x1134b,0x1134d,"Mc"}, {0x11350,0x11350,"Lo"},
{0x11357,0x11357,"Mc"}, {0x1135d,0x11361,"Lo"}, {0x11362,0x11363,"Mc"}, {0x11366,0x1136c,"Mn"}, {0x11370,0x11374,"Mn"}, {0x11380,0x11389,"Lo"},
{0x1138b,0x1138b,"Lo"}, {0x1138e,0x1138e,"Lo"}, {0x11390,0x113b5,"Lo"}, {0x113b7,0x113b7,"Lo"}, {0x113b8,0x113ba,"Mc"}, {0x113bb,0x113c0,"Mn"},
{0x113c2,0x113c2,"Mc"}, {0x113c5,0x113c5,"Mc"}, {0x113c7,0x113ca,"Mc"}, {0x113cc,0x113cd,"Mc"}, {0x113ce,0x113ce,"Mn"}, {0x113cf,0x113cf,"Mc"},
{0x113d0,0x113d0,"Mn"}, {0x113d1,0x113d1,"Lo"}, {0x113d2,0x113d2,"Mn"}, {0x113d3,0x113d3,"Lo"}, {0x113d4,0x113d5,"Po"}, {0x113d7,0x113d8,"Po"},
{0x113e1,0x113e2,"Mn"}, {0x11400,0x11434,"Lo"}, {0x11435,0x11437,"Mc"}, {0x11438,0x1143f,"Mn"}, {0x11440,0x11441,"Mc"}, {0x11442,0x11444,"Mn"},
{0x11445,0x11445,"Mc"}, {0x11446,0x11446,"Mn"}, {0x11447,0x1144a,"Lo"}, {0x1144b,0x1144f,"Po"}, {0x11450,0x11459,"Nd"}, {0x1145a,0x1145b,"Po"},
{0x1145d,0x1145d,"Po"}, {0x1145e,0x1145e,"Mn"}, {0x1145f,0x11461,"Lo"}, {0x11480,0x114af,"Lo"}, {0x114b0,0x114b2,"Mc"}, {0x114b3,0x114b8,"Mn"},
{0x114b9,0x114b9,"Mc"}, {0x114ba,0x114ba,"Mn"}, {0x114bb,0x114be,"Mc"}, {0x114bf,0x114c0,"Mn"}, {0x114c1,0x114c1,"Mc"}, {0x114c2,0x114c3,"Mn"},
{0x114c4,0x114c5,"Lo"}, {0x114c6,0x114c6,"Po"}, {0x114c7,0x114c7,"Lo"}, {0x114d0,0x114d9,"Nd"}, {0x11580,0x115ae,"Lo"}, {0x115af,0x115b1,"Mc"},
{0x115b2,0x115b5,"Mn"}, {0x115b8,0x115bb,"Mc"}, {0x115bc,0x115bd,"Mn"}, {0x115be,0x115be,"Mc"}, {0x115bf,0x115c0,"Mn"}, {0x115c1,0x115d7,"Po"},
{0x115d8,0x115db,"Lo"}, {0x115dc,0x115dd,"Mn"}, {0x11600,0x1162f,"Lo"}, {0x11630,0x11632,"Mc"}, {0x11633,0x1163a,"Mn"}, {0x1163b,0x1163c,"Mc"},
{0x1163d,0x1163d,"Mn"}, {0x1163e,0x1163e,"Mc"}, {0x1163f,0x11640,"Mn"}, {0x11641,0x11643,"Po"}, {0x11644,0x11644,"Lo"}, {0x11650,0x11659,"Nd"},
{0x11660,0x1166c,"Po"}, {0x11680,0x116aa,"Lo"}, {0x116ab,0x116ab,"Mn"}, {0x116ac,0x116ac,"Mc"}, {0x116ad,0x116ad,"Mn"}, {0x116ae,0x116af,"Mc"},
{0x116b0,0x116b5,"Mn"}, {0x116b6,0x116b6,"Mc"}, {0x116b7,0x116b7,"Mn"}, {0x116b8,0x116b8,"Lo"}, {0x116b9,0x116b9,"Po"}, {0x116c0,0x116c9,"Nd"},
{0x116d0,0x116e3,"Nd"}, {0x11700,0x1171a,"Lo"}, {0x1171d,0x1171d,"Mn"}, {0x1171e,0x1171e,"Mc"}, {0x1171f,0x1171f,"Mn"}, {0x11720,0x11721,"Mc"},
{0x11722,0x11725,"Mn"}, {0x11726,0x11726,"Mc"}, {0x11727,0x1172b,"Mn"}, {0x11730,0x11739,"Nd"}, {0x1173a,0x1173b,"No"}, {0x1173c,0x1173e,"Po"},
{0x1173f,0x1173f,"So"}, {0x11740,0x11746,"Lo"}, {0x11800,0x1182b,"Lo"}, {0x1182c,0x1182e,"Mc"}, {0x1182f,0x11837,"Mn"}, {0x11838,0x11838,"Mc"},
{0x11839,0x1183a,"Mn"}, {0x1183b,0x1183b,"Po"}, {0x118a0,0x118bf,"Lu"}, {0x118c0,0x118df,"Ll"}, {0x118e0,0x118e9,"Nd"}, {0x118ea,0x118f2,"No"},
{0x118ff,0x11906,"Lo"}, {0x11909,0x11909,"Lo"}, {0x1190c,0x11913,"Lo"}, {0x11915,0x11916,"Lo"}, {0x11918,0x1192f,"Lo"}, {0x11930,0x11935,"Mc"},
{0x11937,0x11938,"Mc"}, {0x1193b,0x1193c,"Mn"}, {0x1193d,0x1193d,"Mc"}, {0x1193e,0x1193e,"Mn"}, {0x1193f,0x1193f,"Lo"}, {0x11940,0x11940,"Mc"},
{0x11941,0x11941,"Lo"}, {0x11942,0x11942,"Mc"}, {0x11943,0x11943,"Mn"}, {0x11944,0x11946,"Po"}, {0x11950,0x11959,"Nd"}, {0x119a0,0x119a7,"Lo"},
{0x119aa,0x119d0,"Lo"}, {0x119d1,0x119d3,"Mc"}, {0x119d4,0x119d7,"Mn"}, {0x119da,0x119db,"Mn"}, {0x119dc,0x119df,"Mc"}, {0x119e0,0x119e0,"Mn"},
{0x119e1,0x119e1,"Lo"}, {0x119e2,0x119e2,"Po"}, {0x119e3,0x119e3,"Lo"}, {0x119e4,0x119e4,"Mc"}, {0x11a00,0x11a00,"Lo"}, {0x11a01,0x11a0a,"Mn"},
{0x11a0b,0x11a32,"Lo"}, {0x11a33,0x11a38,"Mn"}, {0x11a39,0x11a39,"Mc"}, {0x11a3a,0x11a3a,"Lo"}, {0x11a3b,0x11a3e,"Mn"}, {0x11a3f,0x11a46,"Po"},
{0x11a47,0x11a47,"Mn"}, {0x11a50,0x11a50,"Lo"}, {0x11a51,0x11a56,"Mn"}, {0x11a57,0x11a58,"Mc"}, {0x11a59,0x11a5b,"Mn"}, {0x11a5c,0x11a89,"Lo"},
{0x11a8a,0x11a96,"Mn"}, {0x11a97,0x11a97,"Mc"}, {0x11a98,0x11a99,"Mn"}, {0x11a9a,0x11a9c,"Po"}, {0x11a9d,0x11a9d,"Lo"}, {0x11a9e,0x11aa2,"Po"},
{0x11ab0,0x11af8,"Lo"}, {0x11b00,0x11b09,"Po"}, {0x11bc0,0x11be0,"Lo"}, {0x11be1,0x11be1,"Po"}, {0x11bf0,0x11bf9,"Nd"}, {0x11c00,0x11c08,"Lo"},
{0x11c0a,0x11c2e,"Lo"}, {0x11c2f,0x11c2f,"Mc"}, {0x11c30,0x11c36,"Mn"}, {0x11c38,0x11c3d,"Mn"}, {0x11c3e,0x11c3e,"Mc"}, {0x11c3f,0x11c3f,"Mn"},
{0x11c40,0x11c40,"Lo"}, {0x11c41,0x11c45,"Po"}, {0x11c50,0x11c59,"Nd"}, {0x11c5a,0x11c6c,"No"}, {0x11c70,0x11c71,"Po"}, {0x11c72,0x11c8f,"Lo"},
{0x11c92,0x11ca7,"Mn"}, {0x11ca9,0x11ca9,"Mc"}, {0x11caa,0x11cb0,"Mn"}, {0x11cb1,0x11cb1,"Mc"}, {0x11cb2,0x11cb3,"Mn"}, {0x11cb4,0x11cb4,"Mc"},
{0x11cb5,0x11cb6,"Mn"}, {0x11d00,0x11d06,"Lo"}, {0x11d08,0x11d09,"Lo"}, {0x11d0b,0x11d30,"Lo"}, {0x11d31,0x11d36,"Mn"}, {0x11d3a,0x11d3a,"Mn"},
{0x11d3c,0x11d3d,"Mn"}, {0x11d3f,0x11d45,"Mn"}, {0x11d46,0x11d46,"Lo"}, {0x11d47,0x11d47,"Mn"}, {0x11d50,0x11d59,"Nd"}, {0x11d60,0x11d65,"Lo"},
{0x11d67,0x11d68,"Lo"}, {0x11d6a,0x11d89,"Lo"}, {0x11d8a,0x11d8e,"Mc"}, {0x11d90,0x11d91,"Mn"}, {0x11d93,0x11d94,"Mc"}, {0x11d95,0x11d95,"Mn"},
{0x11d96,0x11d96,"Mc"}, {0x11d97,0x11d97,"Mn"}, {0x11d98,0x11d98,"Lo"}, {0x11da0,0x11da9,"Nd"}, {0x11ee0,0x11ef2,"Lo"}, {0x11ef3,0x11ef4,"Mn"},
{0x11ef5,0x11ef6,"Mc"}, {0x11ef7,0x11ef8,"Po"}, {0x11f00,0x11f01,"Mn"}, {0x11f02,0x11f02,"Lo"}, {0x11f03,0x11f03,"Mc"}, {0x11f04,0x11f10,"Lo"},
{0x11f12,0x11f33,"Lo"}, {0x11f34,0x11f35,"Mc"}, {0x11f36,0x11f3a,"Mn"}, {0x11f3e,0x11f3f,"Mc"}, {0x11f40,0x11f40,"Mn"}, {0x11f41,0x11f41,"Mc"},
{0x11f42,0x11f42,"Mn"}, {0x11f43,0x11f4f,"Po"}, {0x11f50,0x11f59,"Nd"}, {0x11f5a,0x11f5a,"Mn"}, {0x11fb0,0x11fb0,"Lo"}, {0x11fc0,0x11fd4,"No"},
{0x11fd5,0x11fdc,"So"}, {0x11fdd,0x11fe0,"Sc"}, {0x11fe1,0x11ff1,"So"}, {0x11fff,0x11fff,"Po"}, {0x12000,0x12399,"Lo"}, {0x12400,0x1246e,"Nl"},
{0x12470,0x12474,"Po"}, {0x12480,0x12543,"Lo"}, {0x12f90,0x12ff0,"Lo"}, {0x12ff1,0x12ff2,"Po"}, {0x13000,0x1342f,"Lo"}, {0x13430,0x1343f,"Cf"},
{0x13440,0x13440,"Mn"}, {0x13441,0x13446,"Lo"}, {0x13447,0x13455,"Mn"}, {0x13460,0x143fa,"Lo"}, {0x14400,0x14646,"Lo"}, {0x16100,0x1611d,"Lo"},
{0x1611e,0x16129,"Mn"}, {0x1612a,0x1612c,"Mc"}, {0x1612d,0x1612f,"Mn"}, {0x16130,0x16139,"Nd"}, {0x16800,0x16a38,"Lo"}, {0x16a40,0x16a5e,"Lo"},
{0x16a60,0x16a69,"Nd"}, {0x16a6e,0x16a6f,"Po"}, {0x16a70,0x16abe,"Lo"}, {0x16ac0,0x16ac9,"Nd"}, {0x16ad0,0x16aed,"Lo"}, {0x16af0,0x16af4,"Mn"},
{0x16af5,0x16af5,"Po"}, {0x16b00,0x16b2f,"Lo"}, {0x16b30,0x16b36,"Mn"}, {0x16b37,0x16b3b,"Po"}, {0x16b3c,0x16b3f,"So"}, {0x16b40,0x16b43,"Lm"},
{0x16b44,0x16b44,"Po"}, {0x16b45,0x16b45,"So"}, {0x16b50,0x16b59,"Nd"}, {0x16b5b,0x16b61,"No"}, {0x16b63,0x16b77,"Lo"}, {0x16b7d,0x16b8f,"Lo"},
{0x16d40,0x16d42,"Lm"}, {0x16d43,0x16d6a,"Lo"}, {0x16d6b,0x16d6c,"Lm"}, {0x16d6d,0x16d6f,"Po"}, {0x16d70,0x16d79,"Nd"}, {0x16e40,0x16e5f,"Lu"},
{0x16e60,0x16e7f,"Ll"}, {0x16e80,0x16e96,"No"}, {0x16e97,0x16e9a,"Po"}, {0x16f00,0x16f4a,"Lo"}, {0x16f4f,0x16f4f,"Mn"}, {0x16f50,0x16f50,"Lo"},
{0x16f51,0x16f87,"Mc"}, {0x16f8f,0x16f92,"Mn"}, {0x16f93,0x16f9f,"Lm"}, {0x16fe0,0x16fe1,"Lm"}, {0x16fe2,0x16fe2,"Po"}, {0x16fe3,0x16fe3,"Lm"},
{0x16fe4,0x16fe4,"Mn"}, {0x16ff0,0x16ff1,"Mc"}, {0x17000,0x187f7,"Lo"}, {0x18800,0x18cd5,"Lo"}, {0x18cff,0x18d08,"Lo"}, {0x1aff0,0x1aff3,"Lm"},
{0x1aff5,0x1affb,"Lm"}, {0x1affd,0x1affe,"Lm"}, {0x1b000,0x1b122,"Lo"}, {0x1b132,0x1b132,"Lo"}, {0x1b150,0x1b152,"Lo"}, {0x1b155,0x1b155,"Lo"},
{0x1b164,0x1b167,"Lo"}, {0x1b170,0x1b2fb,"Lo"}, {0x1bc00,0x1bc6a,"Lo"}, {0x1bc70,0x1bc7c,"Lo"}, {0x1bc80,0x1bc88,"Lo"}, {0x1bc90,0x1bc99,"Lo"},
{0x1bc9c,0x1bc9c,"So"}, {0x1bc9d,0x1bc9e,"Mn"}, {0x1bc9f,0x1bc9f,"Po"}, {0x1bca0,0x1bca3,"Cf"}, {0x1cc00,0x1ccef,"So"}, {0x1ccf0,0x1ccf9,"Nd"},
{0x1cd00,0x1ceb3,"So"}, {0x1cf00,0x1cf2d,"Mn"}, {0x1cf30,0x1cf46,"Mn"}, {0x1cf50,0x1cfc3,"So"}, {0x1d000,0x1d0f5,"So"}, {0x1d100,0x1d126,"So"},
{0x1d129,0x1d164,"So"}, {0x1d165,0x1d166,"Mc"}, {0x1d167,0x1d169,"Mn"}, {0x1d16a,0x1d16c,"So"}, {0x1d16d,0x1d172,"Mc"}, {0x1d173,0x1d17a,"Cf"},
{0x1d17b,0x1d182,"Mn"}, {0x1d183,0x1d184,"So"}, {0x1d185,0x1d18b,"Mn"}, {0x1d18c,0x1d1a9,"So"}, {0x1d1aa,0x1d1ad,"Mn"}, {0x1d1ae,0x1d1ea,"So"},
{0x1d200,0x1d241,"So"}, {0x1d242,0x1d244,"Mn"}, {0x1d245,0x1d245,"So"}, {0x1d2c0,0x1d2d3,"No"}, {0x1d2e0,0x1d2f3,"No"}, {0x1d300,0x1d356,"So"},
{0x1d360,0x1d378,"No"}, {0x1d400,0x1d419,"Lu"}, {0x1d41a,0x1d433,"Ll"}, {0x1d434,0x1d44d,"Lu"}, {0x1d44e,0x1d454,"Ll"}, {0x1d456,0x1d467,"Ll"},
{0x1d468,0x1d481,"Lu"}, {0x1d482,0x1d49b,"Ll"}, {0x1d49c,0x1d49c,"Lu"}, {0x1d49e,0x1d49f,"Lu"}, {0x1d4a2,0x1d4a2,"Lu"}, {0x1d4a5,0x1d4a6,"Lu"},
{0x1d4a9,0x1d4ac,"Lu"}, {0x1d4ae,0x1d4b5,"Lu"}, {0x1d4b6,0x1d4b9,"Ll"}, {0x1d4bb,0x1d4bb,"Ll"}, {0x1d4bd,0x1d4c3,"Ll"}, {0x1d4c5,0x1d4cf,"Ll"},
{0x1d4d0,0x1d4e9,"Lu"}, {0x1d4ea,0x1d503,"Ll"}, {0x1d504,0x1d505,"Lu"}, {0x1d507,0x1d50a,"Lu"}, {0x1d50d,0x1d514,"Lu"}, {0x1d516,0x1d51c,"Lu"},
{0x1d51e,0x1d537,"Ll"}, {0x1d538,0x1d539,"Lu"}, {0x1d53b,0x1d53e,"Lu"}, {0x1d540,0x1d544,"Lu"}, {0x1d546,0x1d546,"Lu"}, {0x1d54a,0x1d550,"Lu"},
{0x1d552,0x1d56b,"Ll"}, {0x1d56c,0x1d585,"Lu"}, {0x1d586,0x1d59f,"Ll"}, {0x1d5a0,0x1d5b9,"Lu"}, {0x1d5ba,0x1d5d3,"Ll"}, {0x1d5d4,0x1d5ed,"Lu"},
{0x1d5ee,0x1d607,"Ll"}, {0x1d608,0x1d621,"Lu"}, {0x1d622,0x1d63b,"Ll"}, {0x1d63c,0x1d655,"Lu"}, {0x1d656,0x1d66f,"Ll"}, {0x1d670,0x1d689,"Lu"},
{0x1d68a,0x1d6a5,"Ll"}, {0x1d6a8,0x1d6c0,"Lu"}, {0x1d6c1,0x1d6c1,"Sm"}, {0x1d6c2,0x1d6da,"Ll"}, {0x1d6db,0x1d6db,"Sm"}, {0x1d6dc,0x1d6e1,"Ll"},
{0x1d6e2,0x1d6fa,"Lu"}, {0x1d6fb,0x1d6fb,"Sm"}, {0x1d6fc,0x1d714,"Ll"}, {0x1d715,0x1d715,"Sm"}, {0x1d716,0x1d71b,"Ll"}, {0x1d71c,0x1d734,"Lu"},
{0x1d735,0x1d735,"Sm"}, {0x1d736,0x1d74e,"Ll"}, {0x1d74f,0x1d74f,"Sm"}, {0x1d750,0x1d755,"Ll"}, {0x1d756,0x1d76e,"Lu"}, {0x1d76f,0x1d76f,"Sm"},
{0x1d770,0x1d788,"Ll"}, {0x1d789,0x1d789,"Sm"}, {0x1d78a,0x1d78f,"Ll"}, {0x1d790,0x1d7a8,"Lu"}, {0x1d7a9,0x1d7a9,"Sm"}, {0x1d7aa,0x1d7c2,"Ll"},
{0x1d7c3,0x1d7c3,"Sm"}, {0x1d7c4,0x1d7c9,"Ll"}, {0x1d7ca,0x1d7ca,"Lu"}, {0x1d7cb,0x1d7cb,"Ll"}, {0x1d7ce,0x1d7ff,"Nd"}, {0x1d800,0x1d9ff,"So"},
{0x1da00,0x1da36,"Mn"}, {0x1da37,0x1da3a,"So"}, {0x1da3b,0x1da6c,"Mn"}, {0x1da6d,0x1da74,"So"}, {0x1da75,0x1da75,"Mn"}, {0x1da76,0x1da83,"So"},
{0x1da84,0x1da84,"Mn"}, {0x1da85,0x1da86,"So"}, {0x1da87,0x1da8b,"Po"}, {0x1da9b,0x1da9f,"Mn"}, {0x1daa1,0x1daaf,"Mn"}, {0x1df00,0x1df09,"Ll"},
{0x1df0a,0x1df0a,"Lo"}, {0x1df0b,0x1df1e,"Ll"}, {0x1df25,0x1df2a,"Ll"}, {0x1e000,0x1e006,"Mn"}, {0x1e008,0x1e018,"Mn"}, {0x1e01b,0x1e021,"Mn"},
{0x1e023,0x1e024,"Mn"}, {0x1e026,0x1e02a,"Mn"}, {0x1e030,0x1e06d,"Lm"}, {0x1e08f,0x1e08f,"Mn"}, {0x1e100,0x1e12c,"Lo"}, {0x1e130,0x1e136,"Mn"},
{0x1e137,0x1e13d,"Lm"}, {0x1e140,0x1e149,"Nd"}, {0x1e14e,0x1e14e,"Lo"}, {0x1e14f,0x1e14f,"So"}, {0x1e290,0x1e2ad,"Lo"}, {0x1e2ae,0x1e2ae,"Mn"},
{0x1e2c0,0x1e2eb,"Lo"}, {0x1e2ec,0x1e2ef,"Mn"}, {0x1e2f0,0x1e2f9,"Nd"}, {0x1e2ff,0x1e2ff,"Sc"}, {0x1e4d0,0x1e4ea,"Lo"}, {0x1e4eb,0x1e4eb,"Lm"},
{0x1e4ec,0x1e4ef,"Mn"}, {0x1e4f0,0x1e4f9,"Nd"}, {0x1e5d0,0x1e5ed,"Lo"}, {0x1e5ee,0x1e5ef,"Mn"}, {0x1e5f0,0x1e5f0,"Lo"}, {0x1e5f1,0x1e5fa,"Nd"},
{0x1e5ff,0x1e5ff,"Po"}, {0x1e7e0,0x1e7e6,"Lo"}, {0x1e7e8,0x1e7eb,"Lo"}, {0x1e7ed,0x1e7ee,"Lo"}, {0x1e7f0,0x1e7fe,"Lo"}, {0x1e800,0x1e8c4,"Lo"},
{0x1e8c7,0x1e8cf,"No"}, {0x1e8d0,0x1e8d6,"Mn"}, {0x1e900,0x1e921,"Lu"}, {0x1e922,0x1e943,"Ll"}, {0x1e944,0x1e94a,"Mn"}, {0x1e94b,0x1e94b,"Lm"},
{0x1e950,0x1e959,"Nd"}, {0x1e95e,0x1e95f,"Po"}, {0x1ec71,0x1ecab,"No"}, {0x1ecac,0x1ecac,"So"}, {0x1ecad,0x1ecaf,"No"}, {0x1ecb0,0x1ecb0,"Sc"},
{0x1ecb1,0x1ecb4,"No"}, {0x1ed01,0x1ed2d,"No"}, {0x1ed2e,0x1ed2e,"So"}, {0x1ed2f,0x1ed3d,"No"}, {0x1ee00,0x1ee03,"Lo"}, {0x1ee05,0x1ee1f,"Lo"},
{0x1ee21,0x1ee22,"Lo"}, {0x1ee24,0x1ee24,"Lo"}, {0x1ee27,0x1ee27,"Lo"}, {0x1ee29,0x1ee32,"Lo"}, {0x1ee34,0x1ee37,"Lo"}, {0x1ee39,0x1ee39,"Lo"},
{0x1ee3b,0x1ee3b,"Lo"}, {0x1ee42,0x1ee42,"Lo"}, {0x1ee47,0x1ee47,"Lo"}, {0x1ee49,0x1ee49,"Lo"}, {0x1ee4b,0x1ee4b,"Lo"}, {0x1ee4d,0x1ee4f,"Lo"},
{0x1ee51,0x1ee52,"Lo"}, {0x1ee54,0x1ee54,"Lo"}, {0x1ee57,0x1ee57,"Lo"}, {0x1ee59,0x1ee59,"Lo"}, {0x1ee5b,0x1ee5b,"Lo"}, {0x1ee5d,0x1ee5d,"Lo"},
{0x1ee5f,0x1ee5f,"Lo"}, {0x1ee61,0x1ee62,"Lo"}, {0x1ee64,0x1ee64,"Lo"}, {0x1ee67,0x1ee6a,"Lo"}, {0x1ee6c,0x1ee72,"Lo"}, {0x1ee74,0x1ee77,"Lo"},
{0x1ee79,0x1ee7c,"Lo"}, {0x1ee7e,0x1ee7e,"Lo"}, {0x1ee80,0x1ee89,"Lo"}, {0x1ee8b,0x1ee9b,"Lo"}, {0x1eea1,0x1eea3,"Lo"}, {0x1eea5,0x1eea9,"Lo"},
{0x1eeab,0x1eebb,"Lo"}, {0x1eef0,0x1eef1,"Sm"}, {0x1f000,0x1f02b,"So"}, {0x1f030,0x1f093,"So"}, {0x1f0a0,0x1f0ae,"So"}, {0x1f0b1,0x1f0bf,"So"},
{0x1f0c1,0x1f0cf,"So"}, {0x1f0d1,0x1f0f5,"So"}, {0x1f100,0x1f10c,"No"}, {0x1f10d,0x1f1ad,"So"}, {0x1f1e6,0x1f202,"So"}, {0x1f210,0x1f23b,"So"},
{0x1f240,0x1f248,"So"}, {0x1f250,0x1f251,"So"}, {0x1f260,0x1f265,"So"}, {0x1f300,0x1f3fa,"So"}, {0x1f3fb,0x1f3ff,"Sk"}, {0x1f400,0x1f6d7,"So"},
{0x1f6dc,0x1f6ec,"So"}, {0x1f6f0,0x1f6fc,"So"}, {0x1f700,0x1f776,"So"}, {0x1f77b,0x1f7d9,"So"}, {0x1f7e0,0x1f7eb,"So"}, {0x1f7f0,0x1f7f0,"So"},
{0x1f800,0x1f80b,"So"}, {0x1f810,0x1f847,"So"}, {0x1f850,0x1f859,"So"}, {0x1f860,0x1f887,"So"}, {0x1f890,0x1f8ad,"So"}, {0x1f8b0,0x1f8bb,"So"},
{0x1f8c0,0x1f8c1,"So"}, {0x1f900,0x1fa53,"So"}, {0x1fa60,0x1fa6d,"So"}, {0x1fa70,0x1fa7c,"So"}, {0x1fa80,0x1fa89,"So"}, {0x1fa8f,0x1fac6,"So"},
{0x1face,0x1fadc,"So"}, {0x1fadf,0x1fae9,"So"}, {0x1faf0,0x1faf8,"So"}, {0x1fb00,0x1fb92,"So"}, {0x1fb94,0x1fbef,"So"}, {0x1fbf0,0x1fbf9,"Nd"},
{0x20000,0x2a6df,"Lo"}, {0x2a700,0x2b739,"Lo"}, {0x2b740,0x2b81d,"Lo"}, {0x2b820,0x2cea1,"Lo"}, {0x2ceb0,0x2ebe0,"Lo"}, {0x2ebf0,0x2ee5d,"Lo"},
{0x2f800,0x2fa1d,"Lo"}, {0x30000,0x3134a,"Lo"}, {0x31350,0x323af,"Lo"}, {0xe0001,0xe0001,"Cf"}, {0xe0020,0xe007f,"Cf"}, {0xe0100,0xe01ef,"Mn"},
{0xf0000,0xffffd,"Co"}, {0x100000,0x10fffd,"Co"}
    };
    const size_t CLASS_ROW_COUNT = 3368;
}
