// Generated by tools/hard_floats.py, which says what these are.
#pragma once
#include <cstdint>
struct hard_float_mantissa
{
  int exp;
  uint32_t mant;
};
static const hard_float_mantissa hard_float[] = {
{0,0x1},{0,0x2},{0,0x3},{0,0x4},{0,0x713ef},{0,0xdd6f2},{0,0x153bce},{0,0x1d246f},{0,0x20aac7},{0,0x2363ad},{0,0x2abb4e},{0,0x2e1e50},{0,0x305c0a},{0,0x503afc},{0,0x519324},{0,0x5338e2},{0,0x55769c},{0,0x58d99e},{0,0x60b814},{0,0x6ce3ee},{0,0x6d4109},{0,0x7be272},
{1,0x0},{1,0x1},{1,0x2},{1,0x3},{1,0x394ec},{1,0x154f56},{1,0x2789e8},{1,0x2e397d},{1,0x2e503a},{1,0x31b33d},{1,0x33f0f6},{1,0x3d5da3},{1,0x44b979},{1,0x4b7f7e},{1,0x524583},{1,0x53315e},{1,0x56cdcf},{1,0x590b88},{1,0x59c7dc},{1,0x59c7dd},{1,0x5c6e8b},{1,0x5fd18d},{1,0x644d00},{1,0x669792},{1,0x6d5d97},{1,0x7a72a4},{1,0x7ed8d4},
{2,0x0},{2,0x1},{2,0x2},{2,0x3},{2,0x394ec},{2,0x67ac6},{2,0x11b62d},{2,0x14a2a5},{2,0x154f56},{2,0x18f293},{2,0x1bc2f1},{2,0x22ca84},{2,0x2355e5},{2,0x2789e8},{2,0x2e397d},{2,0x30f263},{2,0x33ab49},{2,0x33f0f6},{2,0x372d6f},{2,0x3d5da3},{2,0x45097f},{2,0x4c1efb},{2,0x524583},{2,0x53315e},{2,0x590b88},{2,0x5c6e8b},{2,0x5fd18d},{2,0x61593d},{2,0x656bf0},{2,0x669792},{2,0x690519},{2,0x71cc32},{2,0x7a72a4},{2,0x7ae9a1},
{3,0x0},{3,0x1},{3,0x2},{3,0x3},{3,0x394ec},{3,0xe43c0},{3,0x154f56},{3,0x2355e5},{3,0x2789e8},{3,0x30f263},{3,0x372d6f},{3,0x3d5da3},{3,0x3e8ee1},{3,0x53315e},{3,0x55a886},{3,0x590b88},{3,0x5c6e8b},{3,0x5fd18d},{3,0x71cc32},{3,0x7500d8},{3,0x77b9be},{3,0x7ae9a1},{3,0x7c7b05},
{4,0x0},{4,0x1},{4,0x2},{4,0x3},{4,0x394ec},{4,0x81ce9},{4,0x81cea},{4,0x154f56},{4,0x23a167},{4,0x270469},{4,0x30f263},{4,0x3d5da3},{4,0x4007f9},{4,0x4ab6cc},{4,0x53315e},{4,0x55f36e},{4,0x590b88},{4,0x5c6e8b},{4,0x7500d8},{4,0x77b9be},{4,0x7c7b05},{4,0x7e01bb},
{5,0x0},{5,0x1},{5,0x2},{5,0x3},{5,0x394ec},{5,0x5d6d4},{5,0x81cea},{5,0x154f56},{5,0x23a167},{5,0x270469},{5,0x2725dc},{5,0x30f263},{5,0x3d5da3},{5,0x4007f9},{5,0x4c2b5f},{5,0x53315e},{5,0x590b88},{5,0x5c6e8b},{5,0x6398e9},{5,0x6af010},{5,0x7486e3},{5,0x7500d8},{5,0x75721a},{5,0x77b9be},{5,0x7bcf17},
{6,0x0},{6,0x1},{6,0x2},{6,0x3},{6,0x52650},{6,0xbf548},{6,0xe00da},{6,0x154f56},{6,0x1f97a9},{6,0x270469},{6,0x2a2424},{6,0x30f263},{6,0x31d4b0},{6,0x3d5da3},{6,0x4007f9},{6,0x4e3b42},{6,0x53315e},{6,0x5660bd},{6,0x590b88},{6,0x5f10b7},{6,0x665f04},{6,0x6e3299},{6,0x720f18},
{7,0x0},{7,0x1},{7,0x2},{7,0x3},{7,0x52650},{7,0x16b05e},{7,0x270469},{7,0x284506},{7,0x2a2423},{7,0x2a2424},{7,0x2a2425},{7,0x30f263},{7,0x38ee54},{7,0x4007f9},{7,0x43a990},{7,0x45ca68},{7,0x47219d},{7,0x475205},{7,0x590b88},{7,0x5d2efc},{7,0x5f10b7},{7,0x665f04},
{8,0x0},{8,0x1},{8,0x2},{8,0x3},{8,0x38433},{8,0xc7928},{8,0x1c87c2},{8,0x1d63d9},{8,0x228fb7},{8,0x2a2424},{8,0x30f263},{8,0x34f0de},{8,0x38ee54},{8,0x4007f9},{8,0x43a990},{8,0x475205},{8,0x63882f},{8,0x665f04},{8,0x6c7d25},{8,0x6e04d6},{8,0x6f0c61},{8,0x761959},{8,0x7c8bbf},{8,0x7d5137},{8,0x7f3636},{8,0x7f3637},
{9,0x0},{9,0x1},{9,0x2},{9,0x3},{9,0xc7928},{9,0x1467d8},{9,0x1d63d9},{9,0x21c616},{9,0x228fb7},{9,0x25d09e},{9,0x2a2424},{9,0x30f263},{9,0x318110},{9,0x34f0de},{9,0x4007f9},{9,0x43a990},{9,0x475205},{9,0x4fff62},{9,0x54ad2d},{9,0x55c74d},{9,0x56428f},{9,0x5e49dc},{9,0x6c7d25},{9,0x6e04d6},{9,0x6e30f7},{9,0x6f0c61},{9,0x7e2ddc},
{10,0x0},{10,0x1},{10,0x2},{10,0x3},{10,0x17496f},{10,0x2a2424},{10,0x2d60be},{10,0x30e707},{10,0x34f0de},{10,0x358b52},{10,0x399593},{10,0x4007f9},{10,0x43a990},{10,0x475205},{10,0x4f28ea},{10,0x53cd35},{10,0x54ad2c},{10,0x54ad2d},{10,0x54ad2e},{10,0x6e30f7},{10,0x704d9b},{10,0x7e2ddc},
{11,0x0},{11,0x1},{11,0x2},{11,0x3},{11,0x87582},{11,0x179673},{11,0x1e566f},{11,0x2d60be},{11,0x34f0de},{11,0x399593},{11,0x3d636e},{11,0x4007f9},{11,0x475205},{11,0x4a0aeb},{11,0x4f28ea},{11,0x54ad2d},{11,0x54ad2e},{11,0x5bcfd0},{11,0x68e178},{11,0x6e30f7},{11,0x71f907},{11,0x779a70},
{12,0x0},{12,0x1},{12,0x2},{12,0x3},{12,0xf203e},{12,0x179673},{12,0x1e566f},{12,0x1f81e2},{12,0x22088e},{12,0x2b7cb6},{12,0x34f0de},{12,0x4007f9},{12,0x475205},{12,0x4a0aeb},{12,0x4a379b},{12,0x54ad2d},{12,0x59588d},{12,0x5bcfd0},{12,0x5bd134},{12,0x62ee26},{12,0x68797e},{12,0x6e30f7},{12,0x6f42d3},{12,0x7014ff},{12,0x779a70},{12,0x7b7d6c},
{13,0x0},{13,0x1},{13,0x2},{13,0x3},{13,0x4ec3c},{13,0xaee29},{13,0xf203e},{13,0x17496f},{13,0x1e566f},{13,0x1f81e2},{13,0x2b7cb6},{13,0x2bf5b8},{13,0x2c6eba},{13,0x59588d},{13,0x62ee26},{13,0x68797e},{13,0x6e30f7},{13,0x6f42d3},{13,0x710703},{13,0x779a70},{13,0x7b7d6c},
{14,0x0},{14,0x1},{14,0x2},{14,0x3},{14,0x4ec3c},{14,0x4ec3d},{14,0x12370f},{14,0x2a92e2},{14,0x2b7cb6},{14,0x2bf5b8},{14,0x39b3d4},{14,0x3e6506},{14,0x4771ef},{14,0x64bccf},{14,0x68797e},{14,0x6e30f7},{14,0x6f42d3},{14,0x708e01},{14,0x72eb0b},{14,0x779a70},
{15,0x0},{15,0x1},{15,0x2},{15,0x3},{15,0x4ec3c},{15,0x12370f},{15,0x1ac086},{15,0x26c2a2},{15,0x2b7cb6},{15,0x2b8970},{15,0x2bf5b8},{15,0x30306d},{15,0x39b3d4},{15,0x40bcf1},{15,0x47625a},{15,0x58a722},{15,0x64bccf},{15,0x6f42d3},{15,0x708e01},{15,0x70ca82},{15,0x779a70},{15,0x7c5f33},
{16,0x0},{16,0x1},{16,0x2},{16,0x3},{16,0x38f72},{16,0x4ec3c},{16,0x98b53},{16,0x1ac086},{16,0x26274b},{16,0x26c2a2},{16,0x2b7cb6},{16,0x2bf5b8},{16,0x30306d},{16,0x39b3d4},{16,0x4d1a6b},{16,0x4e601d},{16,0x56076a},{16,0x58a722},{16,0x708e01},{16,0x70ac42},{16,0x779a70},
{17,0x0},{17,0x1},{17,0x2},{17,0x3},{17,0x38f72},{17,0x4ec3c},{17,0x98b53},{17,0xb46df},{17,0x1ac086},{17,0x1af170},{17,0x26274a},{17,0x26274b},{17,0x26274c},{17,0x2a3a2d},{17,0x2bf5b8},{17,0x2cab3b},{17,0x39b3d4},{17,0x3d2aeb},{17,0x442d6c},{17,0x4e9c9e},{17,0x53836e},{17,0x57ffe2},{17,0x582a6b},{17,0x5cd168},{17,0x617865},{17,0x708e01},{17,0x70ce67},{17,0x793af1},
{18,0x0},{18,0x1},{18,0x2},{18,0x3},{18,0x38a0b},{18,0x98b53},{18,0xab9d8},{18,0xb46df},{18,0x1303b2},{18,0x1ac086},{18,0x227d59},{18,0x23de6f},{18,0x26274b},{18,0x2a3a2d},{18,0x2bf5b8},{18,0x2cab3b},{18,0x2e760f},{18,0x31f700},{18,0x379980},{18,0x387c6d},{18,0x39b3d4},{18,0x3d0caa},{18,0x442d6c},{18,0x4e9c9e},{18,0x4edc71},{18,0x56eb96},{18,0x57ffe2},{18,0x582a6b},{18,0x5cd168},{18,0x661f62},{18,0x6820c9},{18,0x6aa568},{18,0x708e01},{18,0x793af1},{18,0x7955fb},{18,0x7d6253},
{19,0x0},{19,0x1},{19,0x2},{19,0x3},{19,0x38a0b},{19,0x9139e},{19,0x98b53},{19,0xb46df},{19,0x10a271},{19,0x1303b2},{19,0x1ac086},{19,0x227d59},{19,0x23de6f},{19,0x26274b},{19,0x2a3a2d},{19,0x2cab3b},{19,0x2e760f},{19,0x31f700},{19,0x39b3d4},{19,0x4170a7},{19,0x4e9c9e},{19,0x4edc71},{19,0x4fb11e},{19,0x661f62},{19,0x6820c9},{19,0x6aa568},{19,0x708e01},{19,0x793af1},{19,0x7955fb},{19,0x7d6253},
{20,0x0},{20,0x1},{20,0x2},{20,0x3},{20,0xc359},{20,0x9139e},{20,0x98b53},{20,0x10a271},{20,0x1ac086},{20,0x23de6f},{20,0x27affc},{20,0x3e046d},{20,0x4170a7},{20,0x4e9c9e},{20,0x4fb11d},{20,0x4fb11e},{20,0x4fb11f},{20,0x6820c9},{20,0x6aa568},{20,0x708e01},{20,0x793af1},{20,0x7955fb},{20,0x7d6253},{20,0x7e9266},
{21,0x0},{21,0x1},{21,0x2},{21,0x3},{21,0xc359},{21,0x6ffed},{21,0x70472},{21,0x98b53},{21,0x10a271},{21,0x1ac086},{21,0x23de6f},{21,0x257dfd},{21,0x3089c0},{21,0x30f16e},{21,0x38a8ad},{21,0x4170a7},{21,0x4fb11e},{21,0x5d6351},{21,0x6820c9},{21,0x6aa568},{21,0x708e01},{21,0x7955fb},{21,0x7d6253},
{22,0x0},{22,0x1},{22,0x2},{22,0x3},{22,0x6ffed},{22,0x10a271},{22,0x1ac086},{22,0x23de6f},{22,0x257dfd},{22,0x3089c0},{22,0x337752},{22,0x38a8ad},{22,0x395d70},{22,0x4170a7},{22,0x4f69fc},{22,0x4fb11e},{22,0x5d6351},{22,0x610769},{22,0x6820c9},{22,0x69a742},{22,0x6aa568},{22,0x6b5ca6},
{23,0x0},{23,0x1},{23,0x2},{23,0x3},{23,0xbbd52},{23,0xd7d76},{23,0x19b6a7},{23,0x23de6f},{23,0x24bbaf},{23,0x27affc},{23,0x337752},{23,0x35a951},{23,0x38a8ad},{23,0x395d70},{23,0x3a73fd},{23,0x4170a7},{23,0x4272ec},{23,0x486d52},{23,0x4d1881},{23,0x4f69fc},{23,0x4fb11e},{23,0x5666a7},{23,0x568c2a},{23,0x610769},{23,0x653d6a},{23,0x69a742},{23,0x6a8f48},{23,0x7b2d67},
{24,0x0},{24,0x1},{24,0x2},{24,0x3},{24,0x1ceb2},{24,0x1ceb3},{24,0xd7d76},{24,0x1aaf10},{24,0x23de6f},{24,0x38a8ad},{24,0x395d70},{24,0x3a73fd},{24,0x4170a7},{24,0x4272ec},{24,0x486d52},{24,0x4d1881},{24,0x4f4d6d},{24,0x4f85eb},{24,0x5cac30},{24,0x6098c9},{24,0x653d6a},{24,0x69a742},{24,0x76a254},{24,0x7b2d67},{24,0x7e8756},
{25,0x0},{25,0x1},{25,0x2},{25,0x3},{25,0x1ceb3},{25,0xd7d76},{25,0xf5553},{25,0x1651fd},{25,0x23de6f},{25,0x2eaca6},{25,0x2ec84e},{25,0x39b22d},{25,0x3b925c},{25,0x4170a7},{25,0x42b60c},{25,0x6098c9},{25,0x653d6a},{25,0x69a742},{25,0x7024cb},{25,0x738bfc},{25,0x748b4f},{25,0x74b207},{25,0x7b2d67},{25,0x7e8756},
{26,0x0},{26,0x1},{26,0x2},{26,0x3},{26,0xbbd52},{26,0xd7d76},{26,0xe0ab1},{26,0x1f039b},{26,0x23de6f},{26,0x2487e9},{26,0x2eaca6},{26,0x2ec84e},{26,0x389d9d},{26,0x519bfb},{26,0x5e95fc},{26,0x6329b9},{26,0x6592a7},{26,0x69a742},{26,0x6c8f51},{26,0x738bfc},{26,0x748b4f},{26,0x798953},{26,0x7a88a6},{26,0x7b2d67},{26,0x7e8756},
{27,0x0},{27,0x1},{27,0x2},{27,0x3},{27,0xc2a8},{27,0x6bf4e},{27,0xe0ab1},{27,0x10be19},{27,0x120889},{27,0x1fb3fe},{27,0x22425f},{27,0x224260},{27,0x2eaca6},{27,0x2ec84e},{27,0x389d9d},{27,0x42a352},{27,0x449c0c},{27,0x4fdaa8},{27,0x5699fe},{27,0x6329b9},{27,0x6592a7},{27,0x69a742},{27,0x6adcb8},{27,0x6c8f51},{27,0x738bfc},{27,0x7a88a6},{27,0x7b2d67},{27,0x7e8756},
{28,0x0},{28,0x1},{28,0x2},{28,0x3},{28,0x6bf4e},{28,0x10be19},{28,0x15b8a8},{28,0x1ab5fa},{28,0x22425f},{28,0x224260},{28,0x24addb},{28,0x2eac0f},{28,0x2eaca6},{28,0x2ec84e},{28,0x36a8fd},{28,0x38a7fc},{28,0x3a9921},{28,0x42a352},{28,0x449c0c},{28,0x4cd283},{28,0x5699fe},{28,0x6329b9},{28,0x6592a7},{28,0x6a90aa},{28,0x6adcb8},{28,0x73638f},{28,0x736390},{28,0x738bfc},{28,0x7b2d67},{28,0x7e8756},
{29,0x0},{29,0x1},{29,0x2},{29,0x3},{29,0x10be19},{29,0x15b8a8},{29,0x18377d},{29,0x1ab5fa},{29,0x1ab653},{29,0x24b150},{29,0x2eac0f},{29,0x2eaca6},{29,0x36a8fd},{29,0x38a7fc},{29,0x3da5a7},{29,0x42a352},{29,0x4c9ea8},{29,0x54ecbb},{29,0x551a7c},{29,0x5699fe},{29,0x6592a7},{29,0x6adcb8},{29,0x738bfc},{29,0x7b2d67},{29,0x7dfd0e},{29,0x7e8756},
{30,0x0},{30,0x1},{30,0x2},{30,0x3},{30,0x10be19},{30,0x18377d},{30,0x1ab5fa},{30,0x33aa51},{30,0x38a7fc},{30,0x3da5a7},{30,0x42a352},{30,0x47a0fd},{30,0x4ad2f6},{30,0x4ad2f7},{30,0x4ad2f8},{30,0x4ad2f9},{30,0x4c9ea8},{30,0x609fb3},{30,0x6313d1},{30,0x6592a7},{30,0x6adcb8},{30,0x746ce3},{30,0x7e8756},
{31,0x0},{31,0x1},{31,0x2},{31,0x3},{31,0x1c1a3},{31,0x58068},{31,0x10be19},{31,0x18377d},{31,0x1ab5fa},{31,0x248b49},{31,0x2aee92},{31,0x33aa51},{31,0x38a7fc},{31,0x3b26d2},{31,0x3cba52},{31,0x3da5a7},{31,0x40247d},{31,0x41cc65},{31,0x42a352},{31,0x452228},{31,0x4ad2f7},{31,0x4ad2f8},{31,0x4c9ea8},{31,0x6592ff},{31,0x746ce3},{31,0x7e8756},
{32,0x0},{32,0x1},{32,0x2},{32,0x3},{32,0x58068},{32,0xedbf3},{32,0x10be19},{32,0x11fb8e},{32,0x18377d},{32,0x1ab5fa},{32,0x219308},{32,0x2aee92},{32,0x33aa51},{32,0x3b26d2},{32,0x3da5a7},{32,0x40247d},{32,0x41cc65},{32,0x4c9ea8},{32,0x6592ff},{32,0x719d3c},{32,0x746ce3},
{33,0x0},{33,0x1},{33,0x2},{33,0x3},{33,0xbcacd},{33,0xedbf3},{33,0x33aa51},{33,0x3da5a7},{33,0x40247d},{33,0x42ebeb},{33,0x4c7c16},{33,0x4c9ea8},{33,0x560c41},{33,0x6592ff},{33,0x677916},{33,0x6c6f5c},{33,0x6c8b29},{33,0x6eee31},{33,0x719d3c},{33,0x76af4f},{33,0x7d87b4},{33,0x7d87b5},{33,0x7d87b6},{33,0x7d87b7},
{34,0x0},{34,0x1},{34,0x2},{34,0x3},{34,0x9de48},{34,0xb710a},{34,0xedbf3},{34,0x11faec},{34,0x165873},{34,0x1cab3f},{34,0x24cb69},{34,0x3da5a7},{34,0x3e25c8},{34,0x40247d},{34,0x42ebeb},{34,0x4c7c16},{34,0x5649ec},{34,0x578027},{34,0x6592ff},{34,0x680ca5},{34,0x69f086},{34,0x6c8b29},{34,0x719d3c},{34,0x766ab2},{34,0x7c4ced},{34,0x7d87b5},{34,0x7d87b6},
{35,0x0},{35,0x1},{35,0x2},{35,0x3},{35,0x289d0},{35,0xa1aac},{35,0xb710a},{35,0xedbf3},{35,0x11faec},{35,0x182b0b},{35,0x24cb69},{35,0x250162},{35,0x3e25c8},{35,0x40247d},{35,0x49f7ca},{35,0x4c7c16},{35,0x50fc2f},{35,0x5649ec},{35,0x578027},{35,0x6592ff},{35,0x69f086},{35,0x719d3c},{35,0x7d87b5},
{36,0x0},{36,0x1},{36,0x2},{36,0x3},{36,0x289d0},{36,0x7af84},{36,0x11faec},{36,0x182b0b},{36,0x1e74d1},{36,0x250162},{36,0x273026},{36,0x317b8e},{36,0x3e25c8},{36,0x40247d},{36,0x4c7c16},{36,0x50fc2f},{36,0x5b4797},{36,0x61dc86},{36,0x629c0f},{36,0x6daccb},{36,0x719d3c},
{37,0x0},{37,0x1},{37,0x2},{37,0x3},{37,0x289d0},{37,0x2ca9b},{37,0x11faec},{37,0x13c599},{37,0x14ca5d},{37,0x19dc70},{37,0x1e74d0},{37,0x1e74d1},{37,0x1e74d2},{37,0x22db43},{37,0x2c55da},{37,0x317b8e},{37,0x3e25c8},{37,0x4c7c16},{37,0x50fc2f},{37,0x5b4797},{37,0x61dc86},{37,0x629c0f},{37,0x6daf3a},{37,0x73d7d8},
{38,0x0},{38,0x1},{38,0x2},{38,0x3},{38,0x289d0},{38,0xaa637},{38,0x11faec},{38,0x14ca5d},{38,0x1d8327},{38,0x1e74d1},{38,0x240096},{38,0x2ee8b4},{38,0x383bb3},{38,0x3e25c8},{38,0x4c7c16},{38,0x50fc2f},{38,0x55ea81},{38,0x58b4bd},{38,0x5b4797},{38,0x5c846a},{38,0x62fd1a},{38,0x6ab8b3},{38,0x6b39f3},{38,0x6daf3a},{38,0x73d7d8},{38,0x7c75bc},
{39,0x0},{39,0x1},{39,0x2},{39,0x3},{39,0x289d0},{39,0x51caa},{39,0xaa637},{39,0x1d8327},{39,0x1e74d1},{39,0x240096},{39,0x2d9f47},{39,0x2ee8b4},{39,0x36e1e2},{39,0x383bb3},{39,0x3f7fc6},{39,0x50fc2f},{39,0x55ea81},{39,0x59fe2a},{39,0x5c846a},{39,0x5dda71},{39,0x62fd1a},{39,0x6734a2},{39,0x6daf3a},{39,0x73d7d8},{39,0x7c75bc},
{40,0x0},{40,0x1},{40,0x2},{40,0x3},{40,0x289d0},{40,0x51caa},{40,0x942c4},{40,0xaa637},{40,0x1d8327},{40,0x1ed92e},{40,0x299b91},{40,0x2b0c6d},{40,0x2e43fd},{40,0x30485c},{40,0x317b8e},{40,0x383bb3},{40,0x461205},{40,0x461206},{40,0x461207},{40,0x4e2be6},{40,0x576b50},{40,0x595974},{40,0x59d85c},{40,0x59e0a0},{40,0x59fe2a},{40,0x5dda71},{40,0x62fd1a},{40,0x6734a2},{40,0x6daf3a},
{41,0x0},{41,0x1},{41,0x2},{41,0x3},{41,0x1e51a},{41,0x289d0},{41,0xaa637},{41,0x1866e7},{41,0x1d8327},{41,0x2e43fd},{41,0x383bb3},{41,0x442114},{41,0x461205},{41,0x461206},{41,0x5aa2e1},{41,0x5cd937},{41,0x5dda71},{41,0x60867f},{41,0x62fd1a},{41,0x63c7ed},{41,0x6734a2},{41,0x6daf3a},{41,0x72bc3b},
{42,0x0},{42,0x1},{42,0x2},{42,0x3},{42,0x1e51a},{42,0x289d0},{42,0xaa637},{42,0x148d84},{42,0x16d504},{42,0x1866e7},{42,0x1d8327},{42,0x1f32f7},{42,0x246744},{42,0x2e43fd},{42,0x33bfb7},{42,0x373712},{42,0x3f04d3},{42,0x42d7a7},{42,0x461206},{42,0x4ebd44},{42,0x536033},{42,0x5aa2e1},{42,0x5dda71},{42,0x62fd1a},{42,0x63c7ed},{42,0x649a5a},{42,0x6734a2},{42,0x6f368a},{42,0x72bc3b},{42,0x779687},{42,0x7a7771},
{43,0x0},{43,0x1},{43,0x2},{43,0x3},{43,0xaa637},{43,0xdcab7},{43,0x148d84},{43,0x1678c3},{43,0x16d504},{43,0x1f32f7},{43,0x246744},{43,0x2d4fc5},{43,0x2e43fd},{43,0x373712},{43,0x3f04d3},{43,0x460f37},{43,0x4ebd44},{43,0x536033},{43,0x5dda71},{43,0x6f368a},{43,0x779686},{43,0x779687},{43,0x779688},{43,0x779689},{43,0x7f0401},
{44,0x0},{44,0x1},{44,0x2},{44,0x3},{44,0x7d7e8},{44,0xa50a6},{44,0xaa637},{44,0x1678c3},{44,0x1f32f7},{44,0x225e60},{44,0x2e43fd},{44,0x3a299a},{44,0x3f04d3},{44,0x44d51c},{44,0x460f37},{44,0x4ebd44},{44,0x527326},{44,0x606b82},{44,0x6a9932},{44,0x6f368a},{44,0x7165f7},{44,0x752959},{44,0x779687},{44,0x779688},
{45,0x0},{45,0x1},{45,0x2},{45,0x3},{45,0xaa637},{45,0x137074},{45,0x1522bc},{45,0x1b0df3},{45,0x1f32f7},{45,0x225e60},{45,0x245627},{45,0x28512f},{45,0x2e43fd},{45,0x3436cc},{45,0x39b0e5},{45,0x3a299a},{45,0x3e0617},{45,0x3f04d3},{45,0x426963},{45,0x4ebd44},{45,0x527326},{45,0x606b82},{45,0x61f34e},{45,0x69c00e},{45,0x7165f7},{45,0x754dd3},{45,0x779687},{45,0x7834fc},
{46,0x0},{46,0x1},{46,0x2},{46,0x3},{46,0x1085f5},{46,0x11753c},{46,0x137074},{46,0x1f32f7},{46,0x21c48f},{46,0x245627},{46,0x28512f},{46,0x2e43fd},{46,0x3436cc},{46,0x3f04d3},{46,0x4c0206},{46,0x58a3b6},{46,0x606b82},{46,0x68e6ea},{46,0x69c00e},{46,0x7165f7},{46,0x779687},{46,0x7834fc},{46,0x7c79c6},
{47,0x0},{47,0x1},{47,0x2},{47,0x3},{47,0x1364a},{47,0xaf50c},{47,0x1085f5},{47,0x137074},{47,0x14b62a},{47,0x177e2f},{47,0x1abe14},{47,0x1abe15},{47,0x1f32f7},{47,0x207bc3},{47,0x245627},{47,0x2e43fd},{47,0x3e2baf},{47,0x4ae4cb},{47,0x4c0206},{47,0x555ee2},{47,0x5b51b0},{47,0x606b82},{47,0x68e6ea},{47,0x69c00e},{47,0x7165f7},{47,0x7686f8},
{48,0x0},{48,0x1},{48,0x2},{48,0x3},{48,0x1364a},{48,0x14b62a},{48,0x17bd24},{48,0x1abe14},{48,0x1dea2b},{48,0x1fd75d},{48,0x207bc3},{48,0x245627},{48,0x2e43fd},{48,0x312e1f},{48,0x31f431},{48,0x3f3b1c},{48,0x50e702},{48,0x61447f},{48,0x681d1f},{48,0x69c00e},{48,0x6fd9d3},{48,0x7686f8},
{49,0x0},{49,0x1},{49,0x2},{49,0x3},{49,0x1364a},{49,0x111233},{49,0x147fe1},{49,0x158f4e},{49,0x17bd24},{49,0x1abe14},{49,0x1dea2b},{49,0x202990},{49,0x207bc3},{49,0x212029},{49,0x2e43fd},{49,0x312e1f},{49,0x31f431},{49,0x38e53a},{49,0x3f3b1c},{49,0x404a89},{49,0x4d14dc},{49,0x50e702},{49,0x547d95},{49,0x61447f},{49,0x639bb6},{49,0x681d1f},{49,0x69c00e},{49,0x69f657},{49,0x6b05c4},{49,0x6be5bb},{49,0x71c900},{49,0x7f0287},
{50,0x0},{50,0x1},{50,0x2},{50,0x3},{50,0xf731e},{50,0x111233},{50,0x158f4e},{50,0x1f852a},{50,0x202990},{50,0x212029},{50,0x2e15d7},{50,0x2e43fd},{50,0x3f3b1c},{50,0x404a89},{50,0x416d98},{50,0x416d99},{50,0x416d9a},{50,0x416d9b},{50,0x4d14dc},{50,0x54c55c},{50,0x6b05c4},{50,0x6be5bb},{50,0x71c900},{50,0x74614b},{50,0x7f0287},
{51,0x0},{51,0x1},{51,0x2},{51,0x3},{51,0x4d1e2},{51,0xf731e},{51,0x111233},{51,0x158f4e},{51,0x1a145b},{51,0x1edb8e},{51,0x1f728b},{51,0x212029},{51,0x24b597},{51,0x2e43fd},{51,0x3afd68},{51,0x3dac6d},{51,0x3f3b1c},{51,0x416d99},{51,0x416d9a},{51,0x4d14dc},{51,0x557f0d},{51,0x5c7d4c},{51,0x615801},{51,0x6be5bb},{51,0x7052e5},{51,0x71c900},
{52,0x0},{52,0x1},{52,0x2},{52,0x3},{52,0x555b8},{52,0xf731e},{52,0x111233},{52,0x1a145b},{52,0x212029},{52,0x2d937c},{52,0x2e43fd},{52,0x344872},{52,0x39351a},{52,0x3afd68},{52,0x3dac6d},{52,0x3f3b1c},{52,0x4d14dc},{52,0x51dc0f},{52,0x557f0d},{52,0x5c7d4c},{52,0x5f03ad},{52,0x647d02},{52,0x671e88},{52,0x71c900},{52,0x7dbcd1},
{53,0x0},{53,0x1},{53,0x2},{53,0x3},{53,0x6f0b7},{53,0xf731e},{53,0x111233},{53,0x212029},{53,0x24ebe0},{53,0x2f56d4},{53,0x344872},{53,0x3b48d3},{53,0x3b4f9b},{53,0x486754},{53,0x51dc0f},{53,0x557f0d},{53,0x5c7d4c},{53,0x5f03ad},{53,0x6fae7f},{53,0x71c8ff},{53,0x71c900},{53,0x71c901},{53,0x74614b},{53,0x7db1c4},{53,0x7dbcd1},
{54,0x0},{54,0x1},{54,0x2},{54,0x3},{54,0x3811f},{54,0xf731e},{54,0x111233},{54,0x255df9},{54,0x26065a},{54,0x26de86},{54,0x2c9a29},{54,0x2e37e2},{54,0x2f56d4},{54,0x3348a0},{54,0x344872},{54,0x3b4f9b},{54,0x469271},{54,0x486754},{54,0x51dc0f},{54,0x557f0d},{54,0x5c7d4c},{54,0x6296c6},{54,0x6fae7f},{54,0x71c900},{54,0x7707db},{54,0x77b57a},{54,0x7a6256},{54,0x7db1c4},
{55,0x0},{55,0x1},{55,0x2},{55,0x3},{55,0x9ce4f},{55,0x111233},{55,0x136567},{55,0x140870},{55,0x255df9},{55,0x344872},{55,0x3556c0},{55,0x37a2ed},{55,0x3b4f9b},{55,0x3bf135},{55,0x40eda2},{55,0x486754},{55,0x51dc0f},{55,0x557f0d},{55,0x575564},{55,0x5b6b87},{55,0x5c7d4c},{55,0x67c6ea},{55,0x71c900},{55,0x7707db},{55,0x780cf5},{55,0x7db1c4},
{56,0x0},{56,0x1},{56,0x2},{56,0x3},{56,0x6cb06},{56,0x9ce4f},{56,0x111233},{56,0x140870},{56,0x171da0},{56,0x1fb92a},{56,0x3556c0},{56,0x363edd},{56,0x37a2ed},{56,0x45ceeb},{56,0x486754},{56,0x538fe0},{56,0x557f0d},{56,0x575564},{56,0x5b2c89},{56,0x67c6ea},{56,0x71c900},{56,0x74614b},{56,0x7707db},{56,0x7db1c4},
{57,0x0},{57,0x1},{57,0x2},{57,0x3},{57,0x6cb06},{57,0x9ce4f},{57,0x111233},{57,0x171d9f},{57,0x171da0},{57,0x17f076},{57,0x1f677e},{57,0x23a888},{57,0x363edd},{57,0x43c00a},{57,0x447350},{57,0x45ceeb},{57,0x486754},{57,0x538fe0},{57,0x557f0d},{57,0x575564},{57,0x59aae4},{57,0x5b2c89},{57,0x6179b9},{57,0x62ac70},{57,0x67c6ea},{57,0x6e141a},{57,0x71c900},{57,0x7db1c4},
{58,0x0},{58,0x1},{58,0x2},{58,0x3},{58,0x6cb06},{58,0x9ce4f},{58,0x111233},{58,0x171da0},{58,0x17f076},{58,0x1bd1bf},{58,0x23a888},{58,0x2787ff},{58,0x2dd52f},{58,0x2f1035},{58,0x31bc9a},{58,0x43c00a},{58,0x557f0d},{58,0x575564},{58,0x5b1e28},{58,0x5d4f19},{58,0x6179b9},{58,0x62ac70},{58,0x67c6ea},{58,0x6a3ab8},{58,0x6bae54},{58,0x6e01dc},{58,0x6e141a},{58,0x71c900},{58,0x734c57},{58,0x795748},
{59,0x0},{59,0x1},{59,0x2},{59,0x3},{59,0x6cb06},{59,0xdb5ba},{59,0xf2ea1},{59,0x10206a},{59,0x111233},{59,0x171da0},{59,0x17f076},{59,0x1aed9e},{59,0x1d89bc},{59,0x2dd52f},{59,0x3a6f90},{59,0x3ce508},{59,0x47a774},{59,0x4e9228},{59,0x557f0d},{59,0x575564},{59,0x5b10e8},{59,0x5d4f19},{59,0x62ac70},{59,0x667394},{59,0x67c6ea},{59,0x6a3ab8},{59,0x6e01dc},{59,0x6e141a},{59,0x6fe56e},{59,0x71c900},{59,0x734c57},{59,0x759024},{59,0x795748},{59,0x7d1e6c},
{60,0x0},{60,0x1},{60,0x2},{60,0x3},{60,0xcc97},{60,0x10206a},{60,0x17f076},{60,0x19e479},{60,0x2a0154},{60,0x2dd52f},{60,0x3980af},{60,0x3a6f90},{60,0x3abe52},{60,0x3ce507},{60,0x3ce508},{60,0x3ce509},{60,0x4fc8bc},{60,0x538b0a},{60,0x5441d5},{60,0x575564},{60,0x62ac70},{60,0x6a3ab8},{60,0x6c1e4a},{60,0x6e01dc},{60,0x6e141a},{60,0x6fe56e},{60,0x70d737},{60,0x71c900},{60,0x734c57},{60,0x73ac92},{60,0x74b00c},{60,0x759024},{60,0x7773b6},
{61,0x0},{61,0x1},{61,0x2},{61,0x3},{61,0xcc97},{61,0x909d1},{61,0x10206a},{61,0x1750e3},{61,0x17f076},{61,0x19e479},{61,0x3980af},{61,0x3a6f90},{61,0x3abe52},{61,0x3ce508},{61,0x4002ec},{61,0x48e27a},{61,0x4fc8bc},{61,0x538b0a},{61,0x566683},{61,0x593a96},{61,0x5e2bc0},{61,0x62ac70},{61,0x6c1e4a},{61,0x6d1013},{61,0x6e01dc},{61,0x6ef3a5},{61,0x6fe56e},{61,0x70d737},{61,0x71c900},{61,0x72bac9},{61,0x734c57},{61,0x73ac92},{61,0x74b00c},{61,0x75405a},{61,0x759024},{61,0x7afd3d},{61,0x7f01fe},
{62,0x0},{62,0x1},{62,0x2},{62,0x3},{62,0x909d1},{62,0xa67c1},{62,0xc0ebd},{62,0xdabc6},{62,0x10206a},{62,0x1750e3},{62,0x243a06},{62,0x312328},{62,0x3a6f90},{62,0x3abe52},{62,0x3ce508},{62,0x3e2b14},{62,0x41a905},{62,0x460078},{62,0x62ac70},{62,0x6465b2},{62,0x67655d},{62,0x696de6},{62,0x6c1e4a},{62,0x6ef3a5},{62,0x6fe56e},{62,0x70d737},{62,0x71c900},{62,0x734c57},{62,0x74b00c},{62,0x759024},{62,0x7a4911},{62,0x7f01fe},
{63,0x0},{63,0x1},{63,0x2},{63,0x3},{63,0x11b59},{63,0x909d1},{63,0x1750e3},{63,0x243a06},{63,0x254867},{63,0x2b0dc5},{63,0x3a6f90},{63,0x3ce508},{63,0x3e0c4b},{63,0x5481a9},{63,0x5bf85e},{63,0x5c84c4},{63,0x6465b2},{63,0x696de6},{63,0x6c1e49},{63,0x6c1e4a},{63,0x6c1e4b},{63,0x6fe56e},{63,0x70d737},{63,0x734c57},{63,0x759024},{63,0x765709},{63,0x7afd3d},{63,0x7e99f7},
{64,0x0},{64,0x1},{64,0x2},{64,0x3},{64,0x4d327},{64,0x909d1},{64,0x1750e3},{64,0x1bf717},{64,0x2251cd},{64,0x2b0dc5},{64,0x348330},{64,0x3e0c4b},{64,0x405f65},{64,0x4f2d0e},{64,0x5481a9},{64,0x5c84c4},{64,0x602f08},{64,0x6465b2},{64,0x696de6},{64,0x6c1e4a},{64,0x70d737},{64,0x734c57},{64,0x7afd3d},
{65,0x0},{65,0x1},{65,0x2},{65,0x3},{65,0x6ee7c},{65,0x93e34},{65,0xd407b},{65,0x1750e3},{65,0x1bf717},{65,0x23308c},{65,0x3116b7},{65,0x348330},{65,0x3666c2},{65,0x3e0c4b},{65,0x405f65},{65,0x4d4887},{65,0x52344f},{65,0x5c84c4},{65,0x602f08},{65,0x624a5d},{65,0x6465b2},{65,0x696de6},{65,0x6bc100},{65,0x6c1e4a},{65,0x70d737},{65,0x734c57},{65,0x778096},
{66,0x0},{66,0x1},{66,0x2},{66,0x3},{66,0x2b7d2},{66,0x6ee7c},{66,0xd407b},{66,0x1392ee},{66,0x14bda2},{66,0x162756},{66,0x16d211},{66,0x1bf717},{66,0x1f93d2},{66,0x2531bc},{66,0x256393},{66,0x38dceb},{66,0x4d4887},{66,0x514286},{66,0x5c84c4},{66,0x6465b2},{66,0x682446},{66,0x6bc100},{66,0x6c1e4a},{66,0x6f5dbb},{66,0x70d737},
{67,0x0},{67,0x1},{67,0x2},{67,0x3},{67,0x6ee7c},{67,0x9d2fa},{67,0x121924},{67,0x1392ed},{67,0x1392ee},{67,0x1392ef},{67,0x14bda2},{67,0x1bf717},{67,0x1f93d2},{67,0x256393},{67,0x338ec2},{67,0x3fd89c},{67,0x40f42b},{67,0x43d4a4},{67,0x43dc0c},{67,0x55fb73},{67,0x59dd09},{67,0x6465b2},{67,0x6bc100},{67,0x6c1e4a},{67,0x70d737},{67,0x7a33ea},
{68,0x0},{68,0x1},{68,0x2},{68,0x3},{68,0x9d2fa},{68,0xffd28},{68,0x1392ee},{68,0x14bda2},{68,0x1d8902},{68,0x290619},{68,0x29b5c5},{68,0x2b8dc1},{68,0x31b7ef},{68,0x338ec2},{68,0x3fd89c},{68,0x471e59},{68,0x4778c6},{68,0x4bfa3a},{68,0x55fb73},{68,0x5614a1},{68,0x599ce3},{68,0x59dd09},{68,0x5d5c65},{68,0x62aef2},{68,0x6bc100},{68,0x6c1e4a},{68,0x7e3f8a},
{69,0x0},{69,0x1},{69,0x2},{69,0x3},{69,0x9d2fa},{69,0xd6fb5},{69,0x1392ee},{69,0x1d8902},{69,0x23597d},{69,0x2e1b34},{69,0x30aed3},{69,0x31b7ef},{69,0x338ec2},{69,0x3ac9fd},{69,0x3fc47e},{69,0x3fd89c},{69,0x4778c6},{69,0x4a8b95},{69,0x55fb73},{69,0x5614a1},{69,0x59dd09},{69,0x5db166},{69,0x62aef2},{69,0x682446},{69,0x6c1e4a},{69,0x724881},{69,0x778e28},
{70,0x0},{70,0x1},{70,0x2},{70,0x3},{70,0xc0ec},{70,0x9d2fa},{70,0x109aa1},{70,0x1392ee},{70,0x1d8902},{70,0x26054c},{70,0x3877a9},{70,0x3877aa},{70,0x3877ab},{70,0x39a9a0},{70,0x3ac9fd},{70,0x3fc47e},{70,0x4778c6},{70,0x4a3370},{70,0x4a8b95},{70,0x55fb73},{70,0x5614a1},{70,0x5db166},{70,0x62aef2},{70,0x6c1e4a},{70,0x6f7233},{70,0x74d30f},{70,0x778e28},{70,0x7b2a73},
{71,0x0},{71,0x1},{71,0x2},{71,0x3},{71,0xc0ec},{71,0x109aa1},{71,0x1392ee},{71,0x1ccc1d},{71,0x1d8902},{71,0x2340f1},{71,0x2a0335},{71,0x3877a9},{71,0x3877aa},{71,0x3ac9fd},{71,0x3cb70f},{71,0x3fc47e},{71,0x412162},{71,0x4a8b95},{71,0x4da74d},{71,0x62aef2},{71,0x7907f2},{71,0x7b2a73},
{72,0x0},{72,0x1},{72,0x2},{72,0x3},{72,0xc0ec},{72,0x9e3b0},{72,0xa59bf},{72,0x1a99c2},{72,0x1ccc1d},{72,0x2340f1},{72,0x2a0335},{72,0x2f20f7},{72,0x3877aa},{72,0x3ac9fd},{72,0x3cb70f},{72,0x4da74d},{72,0x4f869f},{72,0x5afa38},{72,0x62aef2},{72,0x669594},{72,0x6c2da3},{72,0x6dbb7f},{72,0x7b2a73},{72,0x7c20fc},
{73,0x0},{73,0x1},{73,0x2},{73,0x3},{73,0x21e64},{73,0x9e3b0},{73,0xa59bf},{73,0xdeaf9},{73,0x14425e},{73,0x1a99c2},{73,0x20f127},{73,0x27488b},{73,0x2f20f7},{73,0x3cb70f},{73,0x4f869f},{73,0x545e3e},{73,0x5afa38},{73,0x5c238a},{73,0x669593},{73,0x669594},{73,0x669595},{73,0x669596},{73,0x6b1256},{73,0x6dbb7f},{73,0x7b2a73},{73,0x7b70ce},{73,0x7c20fc},
{74,0x0},{74,0x1},{74,0x2},{74,0x3},{74,0x5a148},{74,0xdeaf9},{74,0x15b966},{74,0x1a99c2},{74,0x1b7b61},{74,0x1e88d0},{74,0x20f127},{74,0x25d183},{74,0x2cf02f},{74,0x2f20f7},{74,0x4d54e6},{74,0x4f869f},{74,0x64baf1},{74,0x669594},{74,0x669595},{74,0x6b1256},{74,0x6dbb7f},{74,0x7169ba},{74,0x7b2a73},{74,0x7b70ce},{74,0x7c20fc},
{75,0x0},{75,0x1},{75,0x2},{75,0x3},{75,0x5a148},{75,0xdeaf9},{75,0xfd3b3},{75,0x15b966},{75,0x186df2},{75,0x1a99c2},{75,0x1e88d0},{75,0x20f127},{75,0x27b11d},{75,0x2cf02f},{75,0x2f20f7},{75,0x3e3b67},{75,0x4601be},{75,0x4e6e3b},{75,0x4f869f},{75,0x507dfb},{75,0x609619},{75,0x64baf1},{75,0x669594},{75,0x6b1256},{75,0x6b8325},{75,0x6dbb7f},{75,0x799b85},{75,0x7b70ce},
{76,0x0},{76,0x1},{76,0x2},{76,0x3},{76,0x237f4},{76,0xb3d29},{76,0xdeaf9},{76,0xfd3b3},{76,0x186df2},{76,0x1e88d0},{76,0x1f7a55},{76,0x2930f4},{76,0x2cf02f},{76,0x2d9ff0},{76,0x2f20f7},{76,0x304dc0},{76,0x36f448},{76,0x3952f5},{76,0x3e3b67},{76,0x3ec799},{76,0x4601be},{76,0x46e103},{76,0x4e6e3b},{76,0x5e14dd},{76,0x64baf1},{76,0x6875b6},{76,0x6b1256},{76,0x7b70ce},
{77,0x0},{77,0x1},{77,0x2},{77,0x3},{77,0x632a},{77,0xfd3b3},{77,0x101d7c},{77,0x101d7d},{77,0x274da6},{77,0x2cf02f},{77,0x2f20f7},{77,0x304dc0},{77,0x36f448},{77,0x3b27bf},{77,0x3ec799},{77,0x428e35},{77,0x469aea},{77,0x46e103},{77,0x4f06f3},{77,0x582c3b},{77,0x59328b},{77,0x5e14dd},{77,0x64baf1},{77,0x6875b6},{77,0x75ec55},{77,0x7a6eef},
{78,0x0},{78,0x1},{78,0x2},{78,0x3},{78,0x632a},{78,0xfd3b3},{78,0x101d7c},{78,0x101d7d},{78,0x2f20f7},{78,0x35bac0},{78,0x36f448},{78,0x3b27bf},{78,0x3ec799},{78,0x428e35},{78,0x44b79c},{78,0x4f06f3},{78,0x582c3b},{78,0x59328b},{78,0x5e14dd},{78,0x75ec55},{78,0x7b5954},
{79,0x0},{79,0x1},{79,0x2},{79,0x3},{79,0x2105f},{79,0xfd3b3},{79,0x18c4f8},{79,0x22c5f1},{79,0x2c6fe3},{79,0x36f448},{79,0x428e35},{79,0x44b79c},{79,0x4d5d38},{79,0x4f06f3},{79,0x582c3b},{79,0x5907ec},{79,0x5e14dd},{79,0x63b6f0},{79,0x7c339a},
{80,0x0},{80,0x1},{80,0x2},{80,0x3},{80,0xa31a0},{80,0x1034f6},{80,0x15a1f5},{80,0x160e8f},{80,0x1b0ef5},{80,0x207bf4},{80,0x22212c},{80,0x25e8f4},{80,0x2c6fe3},{80,0x33e5f6},{80,0x3424db},{80,0x3424dc},{80,0x3424dd},{80,0x36f448},{80,0x428e35},{80,0x4f06f3},{80,0x582c3b},{80,0x63b6f0},{80,0x64f687},{80,0x6a27f1},{80,0x7146fd},{80,0x7a1844},
{81,0x0},{81,0x1},{81,0x2},{81,0x3},{81,0x7a4f3},{81,0x1034f6},{81,0x134488},{81,0x15a1f5},{81,0x160e8f},{81,0x1b0ef5},{81,0x207bf4},{81,0x213f39},{81,0x2b55f3},{81,0x338373},{81,0x3424dc},{81,0x36f448},{81,0x428e35},{81,0x4676f1},{81,0x4d559c},{81,0x582c3b},{81,0x632970},{81,0x63b6f0},{81,0x64f687},{81,0x68966f},{81,0x7a1844},
{82,0x0},{82,0x1},{82,0x2},{82,0x3},{82,0x71ba5},{82,0x7a4f3},{82,0x1034f6},{82,0x134488},{82,0x18bfa3},{82,0x1b0ef5},{82,0x1ba6e4},{82,0x213f39},{82,0x26a218},{82,0x2b55f3},{82,0x3424dc},{82,0x36f448},{82,0x3c75f8},{82,0x3f1c32},{82,0x4c3cfd},{82,0x584f71},{82,0x588646},{82,0x612e13},{82,0x63b6f0},{82,0x68966f},{82,0x6ee79a},{82,0x73706e},{82,0x7a1844},
{83,0x0},{83,0x1},{83,0x2},{83,0x3},{83,0x7a4f3},{83,0x1034f6},{83,0x134488},{83,0x1ba6e4},{83,0x220d76},{83,0x26a218},{83,0x344233},{83,0x36f448},{83,0x3fe038},{83,0x4676f1},{83,0x4c3cfd},{83,0x4f6331},{83,0x5077e9},{83,0x55ebc5},{83,0x584f71},{83,0x60df73},{83,0x612e11},{83,0x612e12},{83,0x612e13},{83,0x612e14},{83,0x6ae06c},{83,0x6ee79a},{83,0x73706e},{83,0x747fef},{83,0x7a1844},{83,0x7fb099},
{84,0x0},{84,0x1},{84,0x2},{84,0x3},{84,0xbbed6},{84,0x134488},{84,0x1afa9f},{84,0x1ba6e4},{84,0x1d359b},{84,0x220d76},{84,0x26a218},{84,0x28e28e},{84,0x2fcc13},{84,0x344233},{84,0x36f448},{84,0x4676f1},{84,0x4c3cfd},{84,0x5077e9},{84,0x52edf1},{84,0x53d951},{84,0x55ebc5},{84,0x612e12},{84,0x612e13},{84,0x6ee79a},{84,0x77e68e},{84,0x7a1844},{84,0x7fb099},
{85,0x0},{85,0x1},{85,0x2},{85,0x3},{85,0x40a8c},{85,0xbbed6},{85,0xdf9e6},{85,0xe6d24},{85,0xfd8b8},{85,0x10d8d6},{85,0x28e28e},{85,0x2fcc13},{85,0x344233},{85,0x34b94c},{85,0x4c3cfd},{85,0x5077e9},{85,0x52edf1},{85,0x53d951},{85,0x55ebc5},{85,0x5cc591},{85,0x612e13},{85,0x6ee79a},{85,0x6efa4e},{85,0x77e68e},{85,0x7fb099},
{86,0x0},{86,0x1},{86,0x2},{86,0x3},{86,0x40a8c},{86,0xbbed6},{86,0xe6d24},{86,0xfd8b8},{86,0x120eaf},{86,0x1a6be0},{86,0x28e28e},{86,0x302851},{86,0x344233},{86,0x44a9bd},{86,0x49d14b},{86,0x4a90d3},{86,0x4c3cfd},{86,0x519e41},{86,0x51d073},{86,0x55ebc5},{86,0x6ae06c},{86,0x6ee79a},{86,0x7a219e},{86,0x7d53d5},
{87,0x0},{87,0x1},{87,0x2},{87,0x3},{87,0xbbed6},{87,0xcbccb},{87,0xcbccc},{87,0x12cc43},{87,0x1a6be0},{87,0x28e28e},{87,0x2eae8b},{87,0x44a9bd},{87,0x49d14b},{87,0x4a90d3},{87,0x519e41},{87,0x55ebc5},{87,0x67ece1},{87,0x695424},{87,0x6ee79a},{87,0x6f40f4},{87,0x748df6},{87,0x791af8},{87,0x7a219e},
{88,0x0},{88,0x1},{88,0x2},{88,0x3},{88,0xbbed6},{88,0xcbccb},{88,0xcbccc},{88,0xe88aa},{88,0x11527e},{88,0x12cc43},{88,0x147a61},{88,0x1a6be0},{88,0x218dfa},{88,0x2eae8b},{88,0x2f25d6},{88,0x31785f},{88,0x44a9bd},{88,0x4c0a99},{88,0x4c11c1},{88,0x531b32},{88,0x546815},{88,0x55ebc5},{88,0x67c580},{88,0x6966a6},{88,0x6ee79a},{88,0x6f40f4},{88,0x7757ca},{88,0x791af8},
{89,0x0},{89,0x1},{89,0x2},{89,0x3},{89,0x11527e},{89,0x12cc43},{89,0x147a61},{89,0x1a6be0},{89,0x218dfa},{89,0x279296},{89,0x2bbb00},{89,0x2eae8b},{89,0x2f25d6},{89,0x353313},{89,0x44a9bd},{89,0x4c0a99},{89,0x59fbbd},{89,0x5a2da4},{89,0x61c0e4},{89,0x67c580},{89,0x6ee79a},{89,0x7757ca},
{90,0x0},{90,0x1},{90,0x2},{90,0x3},{90,0x20344},{90,0x41e08},{90,0xa59ec},{90,0x1203e0},{90,0x12cc43},{90,0x147a61},{90,0x1e5465},{90,0x1f43a2},{90,0x218dfa},{90,0x2eae8b},{90,0x2f25d6},{90,0x2febfe},{90,0x2febff},{90,0x353313},{90,0x418398},{90,0x44a9bd},{90,0x4c0a99},{90,0x53032b},{90,0x586246},{90,0x5a2da4},{90,0x64b2cb},{90,0x7757ca},{90,0x78d190},
{91,0x0},{91,0x1},{91,0x2},{91,0x3},{91,0x41e08},{91,0x6b1cf},{91,0x8969f},{91,0xdd635},{91,0xe3792},{91,0x17e2c6},{91,0x1e5465},{91,0x1f43a2},{91,0x2eae8b},{91,0x2febfe},{91,0x2febff},{91,0x322ad4},{91,0x353313},{91,0x35a71d},{91,0x418398},{91,0x44a9bd},{91,0x4c0a99},{91,0x53032b},{91,0x586246},{91,0x64b2cb},{91,0x6fb18b},{91,0x7170b4},{91,0x7757ca},{91,0x7b1be8},
{92,0x0},{92,0x1},{92,0x2},{92,0x3},{92,0x3f0ff},{92,0x6b1cf},{92,0xdd635},{92,0xe3792},{92,0x1cb860},{92,0x25adc6},{92,0x26a02e},{92,0x306cb0},{92,0x31b99d},{92,0x353313},{92,0x35a71d},{92,0x44a9bd},{92,0x4c0a99},{92,0x53032b},{92,0x54c14f},{92,0x5be6fe},{92,0x5d7806},{92,0x62b34c},{92,0x63a5b4},{92,0x6fb18b},{92,0x73db81},{92,0x7757ca},{92,0x7b1be8},
{93,0x0},{93,0x1},{93,0x2},{93,0x3},{93,0x81d6b},{93,0xdd635},{93,0x25adc6},{93,0x2cf067},{93,0x30b10f},{93,0x44a9bd},{93,0x47148a},{93,0x4c8258},{93,0x52724f},{93,0x54c14f},{93,0x5be6fd},{93,0x5be6fe},{93,0x5be6ff},{93,0x5be700},{93,0x5d7806},{93,0x63a5b4},{93,0x6fb18b},{93,0x73db81},{93,0x7b1be8},
{94,0x0},{94,0x1},{94,0x2},{94,0x3},{94,0xa492},{94,0x51f7e},{94,0x81d6b},{94,0xb6dd7},{94,0xdd635},{94,0x1a4d93},{94,0x1b82fa},{94,0x1d634e},{94,0x266394},{94,0x2a69ce},{94,0x44a9bd},{94,0x47148a},{94,0x4965c5},{94,0x54c14f},{94,0x5be6fe},{94,0x5be6ff},{94,0x5d7806},{94,0x6111ed},{94,0x62efe6},{94,0x644e68},{94,0x6861bc},{94,0x6fb18b},{94,0x73db81},
{95,0x0},{95,0x1},{95,0x2},{95,0x3},{95,0xa492},{95,0x51f7e},{95,0x7e0d1},{95,0xdd635},{95,0x159cc1},{95,0x1a4d93},{95,0x24ed3f},{95,0x261a04},{95,0x266394},{95,0x269375},{95,0x2f7ba8},{95,0x3c7d80},{95,0x44a9bd},{95,0x54c14f},{95,0x5be6fe},{95,0x5c87dc},{95,0x5d7806},{95,0x62efe6},{95,0x6861bc},{95,0x6fb18b},{95,0x73db81},
{96,0x0},{96,0x1},{96,0x2},{96,0x3},{96,0x51f7e},{96,0xfb689},{96,0x159cc1},{96,0x1a4d93},{96,0x1e93ba},{96,0x264547},{96,0x3c7d80},{96,0x437abb},{96,0x44a9bd},{96,0x4b2280},{96,0x4cfac3},{96,0x6276b2},{96,0x6861bc},{96,0x6fb18b},{96,0x73db81},{96,0x7763de},{96,0x7fa7f2},
{97,0x0},{97,0x1},{97,0x2},{97,0x3},{97,0x51f7e},{97,0x87852},{97,0x9705e},{97,0x9705f},{97,0xfb689},{97,0x159cc1},{97,0x25e389},{97,0x357782},{97,0x4263b8},{97,0x437abb},{97,0x44a9bd},{97,0x44bc21},{97,0x4cfac3},{97,0x6276b2},{97,0x6861bc},{97,0x6a79dd},{97,0x6fb18b},{97,0x7c1a23},
{98,0x0},{98,0x1},{98,0x2},{98,0x3},{98,0x9374},{98,0x51f7e},{98,0x87852},{98,0x9705f},{98,0x159cc1},{98,0x25e389},{98,0x2d2c71},{98,0x2e58a6},{98,0x357782},{98,0x437abb},{98,0x44a9bd},{98,0x4aca8a},{98,0x4cfac3},{98,0x4e288e},{98,0x5791cd},{98,0x648a73},{98,0x6a79dd},{98,0x6b9ce0},{98,0x6fb18b},{98,0x7c1a23},{98,0x7e7d24},
{99,0x0},{99,0x1},{99,0x2},{99,0x3},{99,0x9374},{99,0x87852},{99,0x9705f},{99,0xfb689},{99,0x192a91},{99,0x1ef7ea},{99,0x357782},{99,0x3da9b4},{99,0x437abb},{99,0x44a9bd},{99,0x4cfac3},{99,0x5791cd},{99,0x5c4bd1},{99,0x6105d5},{99,0x6b9ce0},{99,0x6fb18b},{99,0x7084a6},{99,0x736f70},
{100,0x0},{100,0x1},{100,0x2},{100,0x3},{100,0x87852},{100,0xfb689},{100,0x12138b},{100,0x138606},{100,0x14708d},{100,0x216499},{100,0x2a37b6},{100,0x2bcc76},{100,0x2bcc77},{100,0x357782},{100,0x386d07},{100,0x3df3e1},{100,0x44a9bd},{100,0x4cfac3},{100,0x5791cd},{100,0x5c4bd1},{100,0x6105d5},{100,0x73ede5},{100,0x78f64a},
{101,0x0},{101,0x1},{101,0x2},{101,0x3},{101,0x3f0fd},{101,0x87852},{101,0x12138b},{101,0x138606},{101,0x14708d},{101,0x216499},{101,0x2a37b6},{101,0x2bcc76},{101,0x2bcc77},{101,0x2fd79c},{101,0x386d07},{101,0x3ed835},{101,0x40b74e},{101,0x44a9bd},{101,0x59eecf},{101,0x5c4bd1},{101,0x6a6e5f},{101,0x73ede5},{101,0x7632dd},{101,0x78f64a},
{102,0x0},{102,0x1},{102,0x2},{102,0x3},{102,0xd959},{102,0x3f0fd},{102,0x5b4e5},{102,0xa4147},{102,0x12138b},{102,0x12aacb},{102,0x13420c},{102,0x216499},{102,0x2497d0},{102,0x2d07a9},{102,0x2fd79c},{102,0x38410c},{102,0x386d07},{102,0x40b74e},{102,0x507ac7},{102,0x56bf94},{102,0x5b1d50},{102,0x5c4bd1},{102,0x681cdb},{102,0x78f64a},{102,0x79282d},
{103,0x0},{103,0x1},{103,0x2},{103,0x3},{103,0xa154c},{103,0x10e50a},{103,0x12138b},{103,0x12aacb},{103,0x13420c},{103,0x16cd8f},{103,0x215727},{103,0x2497d0},{103,0x2d07a9},{103,0x32a78f},{103,0x36893e},{103,0x38410c},{103,0x386d07},{103,0x3ad4c1},{103,0x56634c},{103,0x56bf93},{103,0x56bf94},{103,0x56bf95},{103,0x56bf96},{103,0x5bb491},{103,0x5c4bd1},{103,0x623456},{103,0x666ccc},{103,0x681cdb},{103,0x78f64a},
{104,0x0},{104,0x1},{104,0x2},{104,0x3},{104,0x10e50a},{104,0x12aacb},{104,0x13d94c},{104,0x2ce217},{104,0x32a78f},{104,0x36893e},{104,0x377b4e},{104,0x386d07},{104,0x4a9242},{104,0x4f56ec},{104,0x56bf94},{104,0x56bf95},{104,0x59578f},{104,0x5bb491},{104,0x5c4bd1},{104,0x5f4014},{104,0x627cf5},{104,0x666ccc},{104,0x681cdb},{104,0x7d82ac},
{105,0x0},{105,0x1},{105,0x2},{105,0x3},{105,0x428a},{105,0x21fbd},{105,0x2d229},{105,0x10f484},{105,0x12aacb},{105,0x13d94c},{105,0x1faa56},{105,0x210faf},{105,0x25130d},{105,0x32a78f},{105,0x36893e},{105,0x38128f},{105,0x4a9242},{105,0x56bf94},{105,0x5c4bd1},{105,0x627cf5},{105,0x681cdb},{105,0x6e1cd2},{105,0x7d82ac},
{106,0x0},{106,0x1},{106,0x2},{106,0x3},{106,0x428a},{106,0x2d229},{106,0x10e50a},{106,0x1abcdc},{106,0x1faa56},{106,0x210faf},{106,0x23bee1},{106,0x247bcc},{106,0x32a78f},{106,0x351e4c},{106,0x36893e},{106,0x38128f},{106,0x4a9242},{106,0x59578f},{106,0x5c4bd1},{106,0x627cf5},{106,0x719787},{106,0x757a2e},{106,0x7a67a8},{106,0x7d90d1},
{107,0x0},{107,0x1},{107,0x2},{107,0x3},{107,0x428a},{107,0x637bc},{107,0x637bd},{107,0xa3660},{107,0x10e50a},{107,0x1c2a8c},{107,0x1faa56},{107,0x32a78f},{107,0x351e4c},{107,0x36893e},{107,0x4063cf},{107,0x49539b},{107,0x4a9242},{107,0x59578f},{107,0x5c4bd1},{107,0x600638},{107,0x627cf5},{107,0x703fee},{107,0x719787},{107,0x7d90d1},
{108,0x0},{108,0x1},{108,0x2},{108,0x3},{108,0x428a},{108,0x637bc},{108,0x637bd},{108,0xb880c},{108,0x10e50a},{108,0x14f05b},{108,0x1faa56},{108,0x20532c},{108,0x2a6451},{108,0x2fc14f},{108,0x32a78f},{108,0x33603e},{108,0x351e4c},{108,0x3fd847},{108,0x4063cf},{108,0x49539b},{108,0x4a9242},{108,0x53fa91},{108,0x5d7591},{108,0x607471},{108,0x7833d4},
{109,0x0},{109,0x1},{109,0x2},{109,0x3},{109,0x14f05b},{109,0x20532c},{109,0x250754},{109,0x27c5ac},{109,0x2a6451},{109,0x2fc14f},{109,0x32a78f},{109,0x351e4c},{109,0x3a7b4a},{109,0x3fd847},{109,0x448c6f},{109,0x49539b},{109,0x4a9242},{109,0x536496},{109,0x5d7591},{109,0x68c5b1},{109,0x6e15f7},{109,0x7833d4},
{110,0x0},{110,0x1},{110,0x2},{110,0x3},{110,0xb403a},{110,0x14f05b},{110,0x155135},{110,0x20532c},{110,0x27c5ab},{110,0x27c5ac},{110,0x27c5ad},{110,0x2fc14f},{110,0x32a78f},{110,0x351e4c},{110,0x448c6f},{110,0x49539b},{110,0x4a9242},{110,0x505ec3},{110,0x536496},{110,0x5e6021},{110,0x7ba882},
{111,0x0},{111,0x1},{111,0x2},{111,0x3},{111,0x14cb2},{111,0x614c1},{111,0x67f7a},{111,0x1437ac},{111,0x14f05b},{111,0x15a90a},{111,0x1f6230},{111,0x20532c},{111,0x23cbf5},{111,0x27c5ac},{111,0x2fc14f},{111,0x32a78f},{111,0x351e4c},{111,0x3f59a7},{111,0x49539b},{111,0x4a9242},{111,0x5e6021},{111,0x7ba882},
{112,0x0},{112,0x1},{112,0x2},{112,0x3},{112,0x614c1},{112,0x67f7a},{112,0xd828e},{112,0x14f05b},{112,0x1b2064},{112,0x1c5e28},{112,0x20532c},{112,0x27c5ac},{112,0x3f59a7},{112,0x49bf37},{112,0x51b717},{112,0x5e6021},{112,0x5f3a5d},{112,0x60f985},{112,0x691a1c},{112,0x7776c4},{112,0x7ba882},
{113,0x0},{113,0x1},{113,0x2},{113,0x3},{113,0x7442c},{113,0xd828e},{113,0x14f05b},{113,0x194d43},{113,0x1b2064},{113,0x1d4951},{113,0x207d62},{113,0x2b565a},{113,0x2fc14f},{113,0x3a155c},{113,0x3cc043},{113,0x3d5f71},{113,0x4b6c7a},{113,0x51b716},{113,0x51b717},{113,0x51b718},{113,0x5e6021},{113,0x5f3a5d},{113,0x7776c4},{113,0x785e09},{113,0x7ba882},
{114,0x0},{114,0x1},{114,0x2},{114,0x3},{114,0x7442c},{114,0x14f05b},{114,0x1d4951},{114,0x219fde},{114,0x281f58},{114,0x2fc14f},{114,0x395cad},{114,0x3a155c},{114,0x3ace0b},{114,0x473abc},{114,0x51b717},{114,0x59d62f},{114,0x5e6021},{114,0x61719f},{114,0x785e09},
{115,0x0},{115,0x1},{115,0x2},{115,0x3},{115,0x7442c},{115,0x14f05b},{115,0x1d4951},{115,0x281f58},{115,0x35c142},{115,0x376345},{115,0x395cad},{115,0x3a155c},{115,0x3cf818},{115,0x51b717},{115,0x57e0a7},{115,0x59d62f},{115,0x61719f},{115,0x68b1c9},
{116,0x0},{116,0x1},{116,0x2},{116,0x3},{116,0x3126e},{116,0x7442c},{116,0xb78ef},{116,0x14f05b},{116,0x1d4951},{116,0x2350d2},{116,0x275396},{116,0x376345},{116,0x378034},{116,0x395cad},{116,0x3a155c},{116,0x3ed112},{116,0x3f5d78},{116,0x489cba},{116,0x4b65c4},{116,0x51b717},{116,0x61719f},{116,0x68b1c9},{116,0x7d7e45},
{117,0x0},{117,0x1},{117,0x2},{117,0x3},{117,0x3126e},{117,0x3126f},{117,0xb78ef},{117,0x14f05b},{117,0x154a7f},{117,0x1d4951},{117,0x378034},{117,0x395cad},{117,0x3a155c},{117,0x3f5d78},{117,0x61719f},{117,0x68b1c9},{117,0x6b0fa4},{117,0x6f77f2},{117,0x7d7e45},
{118,0x0},{118,0x1},{118,0x2},{118,0x3},{118,0x3126e},{118,0xb78ef},{118,0x154a7f},{118,0x174e36},{118,0x1d4951},{118,0x226ace},{118,0x395cad},{118,0x3f5d78},{118,0x449ba5},{118,0x61719f},{118,0x656041},{118,0x68b1c9},{118,0x6e7741},{118,0x6f77f2},{118,0x7f9724},
{119,0x0},{119,0x1},{119,0x2},{119,0x3},{119,0x3126e},{119,0xb78ef},{119,0x1d4951},{119,0x285447},{119,0x2d57bc},{119,0x395cad},{119,0x4154c9},{119,0x53e9f7},{119,0x5c6e2a},{119,0x61719f},{119,0x656041},{119,0x748710},
{120,0x0},{120,0x1},{120,0x2},{120,0x3},{120,0x240b7},{120,0x3126e},{120,0xb4395},{120,0x1374bc},{120,0x1d4951},{120,0x1ecf63},{120,0x23d709},{120,0x23d70a},{120,0x23d70b},{120,0x365a9a},{120,0x395cad},{120,0x46a352},{120,0x5c6e2a},{120,0x656041},
{121,0x0},{121,0x1},{121,0x2},{121,0x3},{121,0x240b7},{121,0xb4395},{121,0x1ecf63},{121,0x23d70a},{121,0x31d92b},{121,0x61309c},{121,0x656041},{121,0x65f30e},{121,0x6d9168},{121,0x75c28f},
{122,0x0},{122,0x1},{122,0x2},{122,0x3},{122,0x240b7},{122,0x6c226},{122,0xb4395},{122,0x1a0cf1},{122,0x23d70a},{122,0x3851eb},{122,0x4ccccc},{122,0x65f30e},{122,0x75c28f},
{123,0x0},{123,0x1},{123,0x2},{123,0x3},{123,0x240b7},{123,0xb4395},{123,0x21cac0},{123,0x3851eb},{123,0x4ccccb},{123,0x4ccccc},{123,0x4ccccd},{123,0x75c28f},{123,0x7dbf48},
{124,0x0},{124,0x1},{124,0x2},{124,0x3},{124,0xb4395},{124,0x3851eb},{124,0x4ccccc},{124,0x4ccccd},{124,0x570a3d},{124,0x74bc6a},
{125,0x0},{125,0x1},{125,0x2},{125,0x3},{125,0x199999},{125,0x3851eb},{125,0x47ae14},{125,0x4ccccc},
{126,0x0},{126,0x1},{126,0x2},{126,0x3},{126,0x199999},{126,0x666666},{126,0x7ffffe},{126,0x7fffff},
{127,0x0},{127,0x1},{127,0x2},{127,0x3},{127,0x7fffff},
{128,0x0},{128,0x1},{128,0x2},{128,0x3},
{129,0x0},{129,0x1},{129,0x2},{129,0x3},
{130,0x0},{130,0x1},{130,0x2},{130,0x3},{130,0x1fffff},{130,0x200000},
{131,0x0},{131,0x1},{131,0x2},{131,0x3},
{132,0x0},{132,0x1},{132,0x2},{132,0x3},
{133,0x0},{133,0x1},{133,0x2},{133,0x3},{133,0x47ffff},{133,0x480000},
{134,0x0},{134,0x1},{134,0x2},{134,0x3},{134,0x47ffff},{134,0x480000},
{135,0x0},{135,0x1},{135,0x2},{135,0x3},
{136,0x0},{136,0x1},{136,0x2},{136,0x3},{136,0x79fffe},{136,0x79ffff},{136,0x7a0000},{136,0x7a0001},
{137,0x0},{137,0x1},{137,0x2},{137,0x3},{137,0x79ffff},{137,0x7a0000},
{138,0x0},{138,0x1},{138,0x2},{138,0x3},
{139,0x0},{139,0x1},{139,0x2},{139,0x3},
{140,0x0},{140,0x1},{140,0x2},{140,0x3},{140,0x1c3fff},{140,0x1c4000},
{141,0x0},{141,0x1},{141,0x2},{141,0x3},
{142,0x0},{142,0x1},{142,0x2},{142,0x3},
{143,0x0},{143,0x1},{143,0x2},{143,0x3},{143,0x434fff},{143,0x435000},
{144,0x0},{144,0x1},{144,0x2},{144,0x3},{144,0x434fff},{144,0x435000},
{145,0x0},{145,0x1},{145,0x2},{145,0x3},
{146,0x0},{146,0x1},{146,0x2},{146,0x3},{146,0x7423fe},{146,0x7423ff},{146,0x742400},{146,0x742401},
{147,0x0},{147,0x1},{147,0x2},{147,0x3},{147,0x7423ff},{147,0x742400},
{148,0x0},{148,0x1},{148,0x2},{148,0x3},
{149,0x0},{149,0x1},{149,0x2},{149,0x3},
{150,0x0},{150,0x1},{150,0x2},{150,0x3},{150,0x18967f},{150,0x189680},
{151,0x0},{151,0x1},{151,0x2},{151,0x3},
{152,0x0},{152,0x1},{152,0x2},{152,0x3},
{153,0x0},{153,0x1},{153,0x2},{153,0x3},{153,0x3ebc1f},{153,0x3ebc20},
{154,0x0},{154,0x1},{154,0x2},{154,0x3},{154,0x3ebc1f},{154,0x3ebc20},
{155,0x0},{155,0x1},{155,0x2},{155,0x3},
{156,0x0},{156,0x1},{156,0x2},{156,0x3},{156,0x6e6b26},{156,0x6e6b27},{156,0x6e6b28},{156,0x6e6b29},
{157,0x0},{157,0x1},{157,0x2},{157,0x3},{157,0x6e6b27},{157,0x6e6b28},
{158,0x0},{158,0x1},{158,0x2},{158,0x3},
{159,0x0},{159,0x1},{159,0x2},{159,0x3},
{160,0x0},{160,0x1},{160,0x2},{160,0x3},{160,0x1502f8},{160,0x1502f9},
{161,0x0},{161,0x1},{161,0x2},{161,0x3},{161,0x1502f8},{161,0x1502f9},
{162,0x0},{162,0x1},{162,0x2},{162,0x3},{162,0x3a43b7},
{163,0x0},{163,0x1},{163,0x2},{163,0x3},{163,0x3a43b6},{163,0x3a43b7},{163,0x3a43b8},{163,0x4ce416},{163,0x7224d4},
{164,0x0},{164,0x1},{164,0x2},{164,0x3},{164,0xbb2c9},{164,0x1e5328},{164,0x3a43b7},
{165,0x0},{165,0x1},{165,0x2},{165,0x3},{165,0xbb2c9},{165,0x359b9f},{165,0x3a43b7},
{166,0x0},{166,0x1},{166,0x2},{166,0x3},{166,0xbb2c9},{166,0x22fb40},{166,0x4a900a},{166,0x68d4a3},{166,0x68d4a4},{166,0x68d4a5},{166,0x68d4a6},{166,0x7478e0},
{167,0x0},{167,0x1},{167,0x2},{167,0x3},{167,0xa88c3},{167,0xbb2c9},{167,0x1f7d2e},{167,0x68d4a4},{167,0x68d4a5},{167,0x7478e0},
{168,0x0},{168,0x1},{168,0x2},{168,0x3},{168,0x2e9f7b},{168,0x347199},{168,0x35069c},{168,0x68d4a5},{168,0x7478e0},
{169,0x0},{169,0x1},{169,0x2},{169,0x3},{169,0x201231},{169,0x2a41e5},{169,0x4bba10},{169,0x7478e0},
{170,0x0},{170,0x1},{170,0x2},{170,0x3},{170,0x1184e6},{170,0x1184e7},{170,0x201231},{170,0x2a41e5},{170,0x44e32d},{170,0x4bba10},{170,0x6a492c},{170,0x7a25bd},
{171,0x0},{171,0x1},{171,0x2},{171,0x3},{171,0x1184e7},{171,0x201231},{171,0x2a41e5},{171,0x5233d1},{171,0x5a475a},{171,0x6cd519},{171,0x6f6106},{171,0x7ea894},
{172,0x0},{172,0x1},{172,0x2},{172,0x3},{172,0x201231},{172,0x2a41e5},{172,0x58dc23},{172,0x5a475a},{172,0x653152},{172,0x662cc7},{172,0x6cd519},{172,0x7ea894},
{173,0x0},{173,0x1},{173,0x2},{173,0x3},{173,0x2ccdd2},{173,0x35e620},{173,0x35e621},{173,0x4b8b7f},{173,0x5c304c},{173,0x62d89e},{173,0x6c77f7},{173,0x6cd519},{173,0x71ecf3},{173,0x7ea894},
{174,0x0},{174,0x1},{174,0x2},{174,0x3},{174,0x1358e4},{174,0x16ad0d},{174,0x2ccdd2},{174,0x35e620},{174,0x35e621},{174,0x48ff92},{174,0x5c304c},{174,0x6cd519},{174,0x7ea894},
{175,0x0},{175,0x1},{175,0x2},{175,0x3},{175,0x3e071},{175,0x86c98},{175,0x1004bb},{175,0x2ccdd2},{175,0x3ae6b2},{175,0x3b18c1},{175,0x55bb33},{175,0x5c304c},{175,0x635fa9},
{176,0x0},{176,0x1},{176,0x2},{176,0x3},{176,0x3e071},{176,0x2ccdd2},{176,0x3ae6b2},{176,0x3e6cea},{176,0x41f322},{176,0x4d4e9b},{176,0x5c304c},{176,0x635fa7},{176,0x635fa8},{176,0x635fa9},{176,0x635faa},{176,0x71ba4f},
{177,0x0},{177,0x1},{177,0x2},{177,0x3},{177,0x1230a},{177,0x3e071},{177,0x2ccdd2},{177,0x3e6cea},{177,0x4d4e9b},{177,0x500c02},{177,0x566988},{177,0x635fa8},{177,0x635fa9},{177,0x689f62},{177,0x78f963},
{178,0x0},{178,0x1},{178,0x2},{178,0x3},{178,0x107582},{178,0x19906f},{178,0x2a87be},{178,0x3e6cea},{178,0x4d4e9b},{178,0x635fa9},{178,0x7ad53c},
{179,0x0},{179,0x1},{179,0x2},{179,0x3},{179,0x107582},{179,0x3c8a72},{179,0x3d8b5c},{179,0x3e6cea},{179,0x4d4e9b},{179,0x7fcb9e},
{180,0x0},{180,0x1},{180,0x2},{180,0x3},{180,0x385f7},{180,0xe1bc9},{180,0xe1bca},{180,0x107582},{180,0x267ffa},{180,0x38bdb9},{180,0x3dfc23},{180,0x3e6cea},{180,0x45a55f},{180,0x7029d7},
{181,0x0},{181,0x1},{181,0x2},{181,0x3},{181,0x700cc},{181,0xe1bc9},{181,0x107582},{181,0x181ebe},{181,0x318536},{181,0x38bdb9},{181,0x3dfc23},{181,0x3e6cea},{181,0x4979fd},{181,0x5529ae},{181,0x6a7aa6},
{182,0x0},{182,0x1},{182,0x2},{182,0x3},{182,0xe1bc9},{182,0xe8b33},{182,0x2c0298},{182,0x3e6cea},{182,0x512339},{182,0x5529ae},{182,0x6a7aa6},
{183,0x0},{183,0x1},{183,0x2},{183,0x3},{183,0x1ac8e},{183,0xe8b33},{183,0x15094d},{183,0x2ad50d},{183,0x2c0298},{183,0x2ec3e7},{183,0x31a2bb},{183,0x31a2bc},{183,0x31a2bd},{183,0x33697b},{183,0x3e6cea},{183,0x436635},{183,0x478fae},{183,0x5529ae},{183,0x650713},{183,0x77009e},
{184,0x0},{184,0x1},{184,0x2},{184,0x3},{184,0xc4a8},{184,0x1ac8e},{184,0x5d936},{184,0xe8b33},{184,0x2c0298},{184,0x31a2bb},{184,0x31a2bc},{184,0x33697b},{184,0x3e6cea},{184,0x47242e},{184,0x478fae},{184,0x5ab6c4},{184,0x67d087},{184,0x6fcee4},{184,0x77009e},{184,0x77e4bc},
{185,0x0},{185,0x1},{185,0x2},{185,0x3},{185,0x5d936},{185,0x8d2d5},{185,0xe8b33},{185,0x1663a0},{185,0x21331c},{185,0x222310},{185,0x2c0298},{185,0x31a2bc},{185,0x36139a},{185,0x3e6cea},{185,0x478fae},{185,0x4d9d01},{185,0x5ab6c4},{185,0x5e0b6b},{185,0x627c49},{185,0x67d087},{185,0x68dbb1},{185,0x77009e},{185,0x7aa60b},
{186,0x0},{186,0x1},{186,0x2},{186,0x3},{186,0x89d15},{186,0xe8b33},{186,0x1935f5},{186,0x1b6e64},{186,0x21331c},{186,0x342ba5},{186,0x36139a},{186,0x3bb372},{186,0x3e6cea},{186,0x405bc9},{186,0x41a190},{186,0x4c91d7},{186,0x4d9d01},{186,0x5ab6c4},{186,0x5e0b69},{186,0x5e0b6a},{186,0x5e0b6b},{186,0x5e0b6c},{186,0x67d087},{186,0x68dbb1},{186,0x77009e},{186,0x7aa60b},{186,0x7ead22},{186,0x7f59ee},
{187,0x0},{187,0x1},{187,0x2},{187,0x3},{187,0xb9424},{187,0xe8b33},{187,0x13fe23},{187,0x1935f5},{187,0x1bcb5e},{187,0x21331c},{187,0x268890},{187,0x2aaf61},{187,0x3bb372},{187,0x41a190},{187,0x49d80d},{187,0x52f13f},{187,0x5ab6c4},{187,0x5e0b6a},{187,0x5e0b6b},{187,0x68dbb1},{187,0x7530dd},{187,0x77009e},{187,0x7aa60b},{187,0x7f59ee},
{188,0x0},{188,0x1},{188,0x2},{188,0x3},{188,0x6e460},{188,0xa2cc5},{188,0xb9424},{188,0xe8b33},{188,0x13fe23},{188,0x1e7f3d},{188,0x1fd92d},{188,0x20fb7a},{188,0x21331c},{188,0x268890},{188,0x269ada},{188,0x52f13f},{188,0x54ae41},{188,0x5ab6c4},{188,0x5e0b6b},{188,0x68dbb1},{188,0x6a5aa9},{188,0x77009e},{188,0x77aefc},{188,0x7aa60b},{188,0x7f59ee},
{189,0x0},{189,0x1},{189,0x2},{189,0x3},{189,0x6e460},{189,0xf97df},{189,0x19177f},{189,0x1a6e13},{189,0x1fd92d},{189,0x23c205},{189,0x268890},{189,0x269ada},{189,0x2ce027},{189,0x30cd92},{189,0x54ae41},{189,0x5a195b},{189,0x5ab6c4},{189,0x64ef8f},{189,0x68dbb1},{189,0x77aefc},{189,0x79ccd8},{189,0x7f59ee},
{190,0x0},{190,0x1},{190,0x2},{190,0x3},{190,0x4c1ab},{190,0xac722},{190,0xac723},{190,0x124d6c},{190,0x17b886},{190,0x1bd8f9},{190,0x1fd92d},{190,0x268890},{190,0x2ce027},{190,0x30cd92},{190,0x341e35},{190,0x45c22b},{190,0x502ab4},{190,0x521bfa},{190,0x54ae41},{190,0x576220},{190,0x5ab6c4},{190,0x5ccee8},{190,0x623a02},{190,0x6fab5d},{190,0x6fc5c3},
{191,0x0},{191,0x1},{191,0x2},{191,0x3},{191,0x356ef},{191,0xac722},{191,0xac723},{191,0x124d6c},{191,0x13a832},{191,0x165dbf},{191,0x1fd92d},{191,0x2ce027},{191,0x341e35},{191,0x3b59a2},{191,0x45c22b},{191,0x502ab4},{191,0x54ae41},{191,0x576220},{191,0x5ab6c4},{191,0x5e29af},{191,0x60df3c},{191,0x623a02},{191,0x64e57b},{191,0x6fab5d},{191,0x6fc5c3},
{192,0x0},{192,0x1},{192,0x2},{192,0x3},{192,0x124d6c},{192,0x13a75b},{192,0x19134c},{192,0x1d2a7b},{192,0x1fd92d},{192,0x2c0afe},{192,0x2ce027},{192,0x3b59a2},{192,0x45c22b},{192,0x46e7b6},{192,0x502ab4},{192,0x5ab6c4},{192,0x5b7422},{192,0x60ef45},{192,0x623a02},{192,0x6393f2},{192,0x64e57b},{192,0x6fc5c3},{192,0x72dc7d},{192,0x7bf795},{192,0x7d491e},
{193,0x0},{193,0x1},{193,0x2},{193,0x3},{193,0x592de},{193,0x8f111},{193,0x124d6c},{193,0x1c2007},{193,0x1fd92d},{193,0x26a7a6},{193,0x2d78ea},{193,0x2d78eb},{193,0x2d78ec},{193,0x317653},{193,0x36e0c7},{193,0x3da6a7},{193,0x45c22b},{193,0x46e7b6},{193,0x4de861},{193,0x502ab4},{193,0x5ab6c4},{193,0x60ef45},{193,0x623a02},{193,0x64e57b},{193,0x6fc5c3},
{194,0x0},{194,0x1},{194,0x2},{194,0x3},{194,0x592de},{194,0x8f111},{194,0x1fd92d},{194,0x2952ec},{194,0x2d78eb},{194,0x36e0c7},{194,0x36eb46},{194,0x3b9c3f},{194,0x41b68f},{194,0x45c22b},{194,0x46e7b6},{194,0x4de861},{194,0x502ab4},{194,0x5a1a32},{194,0x5ab6c4},{194,0x64e57b},{194,0x6fc5c3},{194,0x74be53},{194,0x7b88ef},
{195,0x0},{195,0x1},{195,0x2},{195,0x3},{195,0x21ab0},{195,0x8f111},{195,0xc8b85},{195,0x10ef49},{195,0x13048f},{195,0x1ed533},{195,0x207640},{195,0x2b5cfa},{195,0x2d78eb},{195,0x311ee0},{195,0x36e0c7},{195,0x36eb46},{195,0x40af35},{195,0x41b68f},{195,0x43688e},{195,0x45c22b},{195,0x46e7b6},{195,0x502ab4},{195,0x55b23b},{195,0x58d726},{195,0x5a1a32},{195,0x64e57b},{195,0x67fbe9},{195,0x72e6d0},{195,0x7b4990},{195,0x7b88ef},
{196,0x0},{196,0x1},{196,0x2},{196,0x3},{196,0x8f111},{196,0x10ef49},{196,0x145560},{196,0x1ae89c},{196,0x207640},{196,0x208731},{196,0x2b5cfa},{196,0x2c635d},{196,0x311ee0},{196,0x34f02b},{196,0x36e0c7},{196,0x38507a},{196,0x40af35},{196,0x41b68f},{196,0x4338b0},{196,0x45c22b},{196,0x4de861},{196,0x58d725},{196,0x58d726},{196,0x58d727},{196,0x5ce743},{196,0x7b4990},
{197,0x0},{197,0x1},{197,0x2},{197,0x3},{197,0xe10d},{197,0x647a2},{197,0xcf23f},{197,0x145560},{197,0x1ae89c},{197,0x2c635d},{197,0x311ee0},{197,0x34f02b},{197,0x38507a},{197,0x38ead4},{197,0x3912c4},{197,0x40af35},{197,0x45c22b},{197,0x4de861},{197,0x58d726},{197,0x58d727},{197,0x5bf61f},{197,0x5ce743},{197,0x61b805},{197,0x62e5ed},{197,0x63aeb5},{197,0x6edece},{197,0x7b4990},
{198,0x0},{198,0x1},{198,0x2},{198,0x3},{198,0xe10d},{198,0x5f403},{198,0x647a2},{198,0xc0988},{198,0xfef82},{198,0x12eed7},{198,0x2c635d},{198,0x311ee0},{198,0x38507a},{198,0x45c22b},{198,0x496b73},{198,0x563438},{198,0x58d726},{198,0x5bf61f},{198,0x6bd060},{198,0x7442b1},{198,0x7b4990},
{199,0x0},{199,0x1},{199,0x2},{199,0x3},{199,0xe10d},{199,0x4d094},{199,0xc0988},{199,0x12a36a},{199,0x12eed7},{199,0x1e9434},{199,0x2c635d},{199,0x311ee0},{199,0x37eb0d},{199,0x38507a},{199,0x396ab8},{199,0x3ce9f0},{199,0x43a98c},{199,0x4de861},{199,0x563438},{199,0x61e626},{199,0x62660a},{199,0x66e509},{199,0x6bd060},{199,0x73f20b},
{200,0x0},{200,0x1},{200,0x2},{200,0x3},{200,0x78677},{200,0x78678},{200,0x12eed7},{200,0x1e9087},{200,0x1e9434},{200,0x256cf2},{200,0x27d98a},{200,0x302ecf},{200,0x311ee0},{200,0x38507a},{200,0x396ab8},{200,0x3a6436},{200,0x3ce9f0},{200,0x43a98c},{200,0x4de861},{200,0x52106d},{200,0x58f9d8},{200,0x61e626},{200,0x66e509},{200,0x6bd060},{200,0x73f20b},
{201,0x0},{201,0x1},{201,0x2},{201,0x3},{201,0x78678},{201,0x12eed7},{201,0x154ede},{201,0x2336df},{201,0x27d98a},{201,0x2c7c35},{201,0x302ecf},{201,0x311ee0},{201,0x35c18b},{201,0x35cea1},{201,0x3a6436},{201,0x3ce9f0},{201,0x43a98c},{201,0x4b49b4},{201,0x4dea9a},{201,0x52106d},{201,0x55e45f},{201,0x6bd060},{201,0x72043a},{201,0x7c430f},
{202,0x0},{202,0x1},{202,0x2},{202,0x3},{202,0x93826},{202,0x154ede},{202,0x1b6f2c},{202,0x1f8db3},{202,0x296816},{202,0x2c7c35},{202,0x411f9e},{202,0x43a98c},{202,0x4b49b4},{202,0x52106d},{202,0x5ad6e3},{202,0x5daf7a},{202,0x67c566},{202,0x6d2b52},
{203,0x0},{203,0x1},{203,0x2},{203,0x3},{203,0x23175},{203,0x93826},{203,0xa9026},{203,0xb92f7},{203,0x154ede},{203,0x1b6f2c},{203,0x1f8db3},{203,0x20e58a},{203,0x296815},{203,0x296816},{203,0x296817},{203,0x2c7c35},{203,0x348b3f},{203,0x3812e1},{203,0x3a8443},{203,0x43a98c},{203,0x4f4038},{203,0x52106d},{203,0x67c566},{203,0x6f548c},{203,0x786c43},{203,0x7e1c21},
{204,0x0},{204,0x1},{204,0x2},{204,0x3},{204,0x23175},{204,0x93826},{204,0x9b833},{204,0xa2b3a},{204,0xa9026},{204,0x20e58a},{204,0x296816},{204,0x2c7c35},{204,0x348b3f},{204,0x3812e1},{204,0x43a98c},{204,0x4891a5},{204,0x52106d},{204,0x597f0c},{204,0x5e8658},{204,0x6e0429},{204,0x6f548c},{204,0x70727e},{204,0x77c40f},{204,0x7ceefa},{204,0x7d9ae6},{204,0x7e1c21},
{205,0x0},{205,0x1},{205,0x2},{205,0x3},{205,0x2290c},{205,0x23175},{205,0x442d3},{205,0x93826},{205,0x9b833},{205,0x23bd0b},{205,0x252be2},{205,0x296816},{205,0x2a124e},{205,0x2c7c35},{205,0x361cb1},{205,0x43a98c},{205,0x4548a1},{205,0x4e944c},{205,0x53c21b},{205,0x54b598},{205,0x5e8658},{205,0x600a4b},{205,0x604c43},{205,0x6f548c},{205,0x70727e},{205,0x7d9ae6},{205,0x7e1c21},
{206,0x0},{206,0x1},{206,0x2},{206,0x3},{206,0x23175},{206,0x442d3},{206,0x93826},{206,0x9b833},{206,0x12f740},{206,0x143b13},{206,0x1f8db3},{206,0x23bd0b},{206,0x252be2},{206,0x361cb1},{206,0x38becc},{206,0x43a98c},{206,0x4548a1},{206,0x491eec},{206,0x4d4266},{206,0x51efe6},{206,0x53c21a},{206,0x53c21b},{206,0x53c21c},{206,0x5e8658},{206,0x600a4b},{206,0x66d437},{206,0x68ef1e},{206,0x6f548c},{206,0x7bfe07},{206,0x7e1c21},
{207,0x0},{207,0x1},{207,0x2},{207,0x3},{207,0x18823},{207,0x23175},{207,0x23b37},{207,0x442d3},{207,0x6fd83},{207,0x93826},{207,0x12f740},{207,0x143b13},{207,0x1f8db3},{207,0x23bd0b},{207,0x3482d6},{207,0x38becc},{207,0x46643c},{207,0x491eec},{207,0x492b9a},{207,0x4d4266},{207,0x53c21b},{207,0x53c21c},{207,0x5409ac},{207,0x590d5c},{207,0x5eda72},{207,0x600a4b},{207,0x6d3ac6},{207,0x738819},
{208,0x0},{208,0x1},{208,0x2},{208,0x3},{208,0x23175},{208,0x23b37},{208,0x442d3},{208,0x5a02b},{208,0x11e843},{208,0x12f740},{208,0x143b13},{208,0x1ed194},{208,0x23bd0b},{208,0x36f999},{208,0x38becc},{208,0x3baa5a},{208,0x3f1c9f},{208,0x46643c},{208,0x47c194},{208,0x53c21b},{208,0x5409ac},{208,0x560e6c},{208,0x590d5c},{208,0x777e10},{208,0x7ae036},
{209,0x0},{209,0x1},{209,0x2},{209,0x3},{209,0x23175},{209,0x23b37},{209,0x442d3},{209,0x45951},{209,0xafd7b},{209,0xb158b},{209,0x11e843},{209,0x12f740},{209,0x1c2bf4},{209,0x20abeb},{209,0x23bd0b},{209,0x38becc},{209,0x3949d8},{209,0x3baa5a},{209,0x3f9184},{209,0x405b1b},{209,0x46643c},{209,0x4d36f4},{209,0x560e6c},{209,0x590d5c},{209,0x5a746f},{209,0x5f9556},{209,0x60a453},{209,0x67a678},{209,0x777e10},{209,0x7cf9fc},
{210,0x0},{210,0x1},{210,0x2},{210,0x3},{210,0xd977},{210,0x23175},{210,0x442d3},{210,0x45950},{210,0x45951},{210,0x7ac2f},{210,0xafd7b},{210,0x117391},{210,0x11e843},{210,0x1c2bf4},{210,0x20abeb},{210,0x2c0db6},{210,0x38becc},{210,0x3a9ca8},{210,0x405b1b},{210,0x4230af},{210,0x42fae0},{210,0x46643c},{210,0x49cd98},{210,0x51a869},{210,0x590d5c},{210,0x5adc64},{210,0x60fe3d},{210,0x67a678},{210,0x777e10},
{211,0x0},{211,0x1},{211,0x2},{211,0x3},{211,0xd977},{211,0x23175},{211,0x442d3},{211,0x45951},{211,0x5f781},{211,0x117391},{211,0x11e843},{211,0x190fbe},{211,0x20fb8a},{211,0x2e52f2},{211,0x32abc7},{211,0x38becc},{211,0x4230af},{211,0x46643c},{211,0x4685fa},{211,0x4818ea},{211,0x49cd98},{211,0x49d502},{211,0x516a81},{211,0x51a869},{211,0x590d5c},{211,0x60fe3d},{211,0x67a678},{211,0x6845b6},{211,0x777e10},{211,0x7f1a3d},
{212,0x0},{212,0x1},{212,0x2},{212,0x3},{212,0xd977},{212,0x45951},{212,0x960dd},{212,0x190fbe},{212,0x20fb8a},{212,0x223112},{212,0x22f70f},{212,0x256fa5},{212,0x2e52f2},{212,0x414632},{212,0x4230af},{212,0x445101},{212,0x4846e7},{212,0x49cd98},{212,0x49d502},{212,0x60a989},{212,0x679c4e},{212,0x67a678},{212,0x6845b6},{212,0x6e522c},{212,0x6fe1e3},{212,0x70a422},{212,0x777e10},{212,0x7f1a3d},
{213,0x0},{213,0x1},{213,0x2},{213,0x3},{213,0xd977},{213,0x45951},{213,0x51d2a},{213,0x14e47b},{213,0x1f289a},{213,0x22f70f},{213,0x23c821},{213,0x256fa4},{213,0x256fa5},{213,0x256fa6},{213,0x2e52f2},{213,0x4230af},{213,0x4589e5},{213,0x4846e7},{213,0x49cd98},{213,0x49d502},{213,0x4e528f},{213,0x63b092},{213,0x679c4e},{213,0x67a678},{213,0x6e522c},{213,0x6fe1e3},{213,0x70a422},{213,0x777e10},{213,0x782778},{213,0x7f1a3d},
{214,0x0},{214,0x1},{214,0x2},{214,0x3},{214,0x2fb50},{214,0x51d2a},{214,0x54240},{214,0xc9ee6},{214,0xda490},{214,0xe5355},{214,0x14e47b},{214,0x1f289a},{214,0x256fa5},{214,0x31a8cc},{214,0x347b19},{214,0x4230af},{214,0x4589e5},{214,0x47abbf},{214,0x49cd98},{214,0x49d502},{214,0x6e522c},{214,0x6fe1e3},{214,0x777e10},{214,0x782778},{214,0x7f1a3d},
{215,0x0},{215,0x1},{215,0x2},{215,0x3},{215,0x2fb50},{215,0x51d2a},{215,0xda490},{215,0xe5355},{215,0x147a9a},{215,0x1f289a},{215,0x256fa5},{215,0x266474},{215,0x3e6028},{215,0x3f2459},{215,0x3f2837},{215,0x42632f},{215,0x4589e5},{215,0x49cd98},{215,0x66d130},{215,0x6fe1e3},{215,0x6ffd19},{215,0x782778},{215,0x7f1a3d},
{216,0x0},{216,0x1},{216,0x2},{216,0x3},{216,0x2fb50},{216,0xda490},{216,0xe5355},{216,0x1f289a},{216,0x266474},{216,0x2f27ce},{216,0x3a1d9a},{216,0x3e6028},{216,0x3f2837},{216,0x49cd98},{216,0x4ca7a2},{216,0x4ecb8e},{216,0x4ecb8f},{216,0x4ecb90},{216,0x5476d8},{216,0x592289},{216,0x5aef1c},{216,0x628d7d},{216,0x65fae2},{216,0x66bd00},{216,0x6fe1e3},{216,0x782778},
{217,0x0},{217,0x1},{217,0x2},{217,0x3},{217,0x2fb50},{217,0xda490},{217,0x14afe2},{217,0x1bd2c0},{217,0x1f289a},{217,0x21d134},{217,0x266474},{217,0x26bdc6},{217,0x310db4},{217,0x381906},{217,0x3a1d9a},{217,0x3f2837},{217,0x42f2cd},{217,0x4ca7a2},{217,0x4ecb8e},{217,0x4ecb8f},{217,0x5476d8},{217,0x592289},{217,0x628b49},{217,0x648236},{217,0x66bd00},{217,0x6fe1e3},{217,0x77dffc},{217,0x7b4190},{217,0x7d7c84},
{218,0x0},{218,0x1},{218,0x2},{218,0x3},{218,0x13f39},{218,0x2fb50},{218,0xbd599},{218,0xda490},{218,0x14afe2},{218,0x1b18ab},{218,0x1d8a2b},{218,0x1f289a},{218,0x1f5922},{218,0x21d134},{218,0x266474},{218,0x310db4},{218,0x3f2837},{218,0x42c246},{218,0x42f2cd},{218,0x4ca7a2},{218,0x4ecb8f},{218,0x592289},{218,0x651213},{218,0x693696},{218,0x6a8796},{218,0x6fe1e3},{218,0x7d7c84},
{219,0x0},{219,0x1},{219,0x2},{219,0x3},{219,0x13f39},{219,0x4c9d0},{219,0x1b18ab},{219,0x1d434f},{219,0x1f289a},{219,0x2194fc},{219,0x21d134},{219,0x2d30e1},{219,0x310db4},{219,0x42f2cd},{219,0x4583e5},{219,0x4ca7a2},{219,0x592289},{219,0x6fe1e3},{219,0x77af74},{219,0x7d7c84},
{220,0x0},{220,0x1},{220,0x2},{220,0x3},{220,0x13f38},{220,0x13f39},{220,0x4c9d0},{220,0x4ca47},{220,0x4d8de},{220,0xb751d},{220,0xc50db},{220,0xe2bf2},{220,0x1d434f},{220,0x21d134},{220,0x2d30e1},{220,0x310db4},{220,0x35adc0},{220,0x371e4f},{220,0x4329b5},{220,0x4583e5},{220,0x4ca7a2},{220,0x5d5121},{220,0x77af74},{220,0x77ba48},
{221,0x0},{221,0x1},{221,0x2},{221,0x3},{221,0x13f39},{221,0x4ca47},{221,0x4d8de},{221,0xc0ba9},{221,0x1aebfd},{221,0x1d434f},{221,0x21d134},{221,0x310db4},{221,0x382d4b},{221,0x41ded6},{221,0x4329b5},{221,0x472f6a},{221,0x4ca7a2},{221,0x540797},{221,0x599522},{221,0x5d5121},{221,0x6f1b5d},{221,0x71ff93},{221,0x7372d7},{221,0x77ba48},{221,0x7c0816},{221,0x7eed13},
{222,0x0},{222,0x1},{222,0x2},{222,0x3},{222,0x13f39},{222,0x4d8de},{222,0x1d434f},{222,0x28c040},{222,0x382d4b},{222,0x3dab80},{222,0x591484},{222,0x5d5121},{222,0x618dbe},{222,0x622ea4},{222,0x65ca5b},{222,0x6f1b5d},{222,0x77ba48},
{223,0x0},{223,0x1},{223,0x2},{223,0x3},{223,0x13f39},{223,0x4d8de},{223,0x8143e},{223,0x10ea49},{223,0x218f07},{223,0x218f08},{223,0x270c00},{223,0x28c7c7},{223,0x382d4b},{223,0x3d2db6},{223,0x3dab80},{223,0x5206bd},{223,0x534f6d},{223,0x53a454},{223,0x5afe2a},{223,0x5b32d2},{223,0x5d5121},{223,0x5f6f6f},{223,0x618dbe},{223,0x622ea4},{223,0x697123},{223,0x7850d4},
{224,0x0},{224,0x1},{224,0x2},{224,0x3},{224,0x13f39},{224,0x88461},{224,0x218f07},{224,0x270c00},{224,0x28c7c7},{224,0x382d4b},{224,0x3ab3f1},{224,0x3d2db6},{224,0x491200},{224,0x534f6d},{224,0x5afe2a},{224,0x5b32d2},{224,0x5cd082},{224,0x5d5121},{224,0x5f6f6f},{224,0x6ec433},{224,0x7061e3},{224,0x72568b},
{225,0x0},{225,0x1},{225,0x2},{225,0x3},{225,0x13f39},{225,0xbe96f},{225,0xc314c},{225,0x136ab6},{225,0x1df7d3},{225,0x2058d6},{225,0x270c00},{225,0x30d4b0},{225,0x382d4b},{225,0x3ab3f1},{225,0x3d2db6},{225,0x422e90},{225,0x49f2c9},{225,0x5afe2a},{225,0x5b32d2},{225,0x5f6f6f},{225,0x65ce1e},{225,0x66f0b6},{225,0x6ec433},{225,0x72568b},{225,0x7a9200},
{226,0x0},{226,0x1},{226,0x2},{226,0x3},{226,0x7acd2},{226,0x235fcd},{226,0x270c00},{226,0x30d4b0},{226,0x3397bb},{226,0x3bcfdf},{226,0x466b2d},{226,0x46d299},{226,0x49f2c8},{226,0x49f2c9},{226,0x49f2ca},{226,0x5001c0},{226,0x50cf00},{226,0x54bc12},{226,0x5afe2a},{226,0x5b32d2},{226,0x606624},{226,0x69a77f},{226,0x6ec433},{226,0x7a9200},
{227,0x0},{227,0x1},{227,0x2},{227,0x3},{227,0x122a80},{227,0x188fd9},{227,0x1ad6c7},{227,0x1cdbe3},{227,0x1e878c},{227,0x20abd0},{227,0x270c00},{227,0x3bed80},{227,0x49f2c9},{227,0x49f2ca},{227,0x5001c0},{227,0x50cf00},{227,0x5afe2a},{227,0x631a21},{227,0x69a77f},{227,0x6ec433},{227,0x7a9200},
{228,0x0},{228,0x1},{228,0x2},{228,0x3},{228,0xcea6},{228,0x7b9c0},{228,0x7e088},{228,0x122a80},{228,0x177617},{228,0x2613ca},{228,0x270c00},{228,0x3bed80},{228,0x44cd7d},{228,0x49f2c9},{228,0x50cf00},{228,0x591832},{228,0x68821b},{228,0x6d4a13},{228,0x6ec433},{228,0x76060c},{228,0x7c6f7c},
{229,0x0},{229,0x1},{229,0x2},{229,0x3},{229,0xcea6},{229,0x5ca72},{229,0x7b9c0},{229,0x122a80},{229,0x177617},{229,0x1c9b40},{229,0x2613ca},{229,0x270c00},{229,0x30b470},{229,0x4088fa},{229,0x465152},{229,0x50cf00},{229,0x5b4cad},{229,0x6d4a13},{229,0x76060c},{229,0x7c6f7a},{229,0x7c6f7b},{229,0x7c6f7c},{229,0x7c6f7d},
{230,0x0},{230,0x1},{230,0x2},{230,0x3},{230,0x28160},{230,0x5ca72},{230,0x7b9c0},{230,0xcf220},{230,0x122a80},{230,0x1c9b40},{230,0x2613ca},{230,0x30b470},{230,0x4088fa},{230,0x43a333},{230,0x49da43},{230,0x4e0ceb},{230,0x50cf00},{230,0x5691f6},{230,0x59c8d8},{230,0x7c6f7b},{230,0x7c6f7c},
{231,0x0},{231,0x1},{231,0x2},{231,0x3},{231,0x28160},{231,0x51d90},{231,0x7b9c0},{231,0xa55f0},{231,0x1a9de2},{231,0x1c9b40},{231,0x1d5d2a},{231,0x2613ca},{231,0x36b520},{231,0x39ebae},{231,0x3d539d},{231,0x41ae5e},{231,0x43a333},{231,0x4e0ceb},{231,0x50cf00},{231,0x59c8d8},{231,0x5a6b78},{231,0x6589b7},{231,0x7a8512},{231,0x7c6f7c},
{232,0x0},{232,0x1},{232,0x2},{232,0x3},{232,0x28160},{232,0xcff0d},{232,0xf8e50},{232,0x10342a},{232,0x177cbb},{232,0x1a9de2},{232,0x1c9b40},{232,0x1d5d2a},{232,0x1dc5ad},{232,0x29a830},{232,0x39ebae},{232,0x3b9301},{232,0x3d3a54},{232,0x43a333},{232,0x472646},{232,0x4e0ceb},{232,0x5a6b78},{232,0x5ce18c},{232,0x6ca884},{232,0x700765},{232,0x7a8512},
{233,0x0},{233,0x1},{233,0x2},{233,0x3},{233,0x28160},{233,0x907d8},{233,0xf8e50},{233,0x156906},{233,0x1614c8},{233,0x1a9de2},{233,0x1dc5ac},{233,0x1dc5ad},{233,0x1dc5ae},{233,0x1f2d25},{233,0x2d8ca5},{233,0x369d08},{233,0x394462},{233,0x3b9301},{233,0x43a333},{233,0x43c210},{233,0x4e0ceb},{233,0x60ec79},{233,0x6ca884},{233,0x7a8512},{233,0x7fa8a5},
{234,0x0},{234,0x1},{234,0x2},{234,0x3},{234,0x28160},{234,0x5c49c},{234,0x907d8},{234,0xc4b14},{234,0x12ce98},{234,0x163989},{234,0x1a9de2},{234,0x1dc5ad},{234,0x1f2d25},{234,0x2321b8},{234,0x25a929},{234,0x369d08},{234,0x3b9301},{234,0x3ee1a7},{234,0x43a333},{234,0x43c210},{234,0x4e0ceb},{234,0x4e3fbd},{234,0x60ec79},{234,0x646268},{234,0x6ca884},
{235,0x0},{235,0x1},{235,0x2},{235,0x3},{235,0x28160},{235,0xd99bc},{235,0x12ce98},{235,0x12d18c},{235,0x163989},{235,0x1dc5ad},{235,0x2321b8},{235,0x28e645},{235,0x299ae7},{235,0x3371e4},{235,0x369d08},{235,0x3b9301},{235,0x4e0ceb},{235,0x4e3fbd},{235,0x50a759},{235,0x5f4526},{235,0x60ec79},{235,0x6ca884},{235,0x739935},{235,0x776406},
{236,0x0},{236,0x1},{236,0x2},{236,0x3},{236,0x28160},{236,0xaa976},{236,0x12d18c},{236,0x141bcf},{236,0x163989},{236,0x1af9a2},{236,0x2321b8},{236,0x27a208},{236,0x317e63},{236,0x323ca3},{236,0x369d08},{236,0x3b9301},{236,0x44e95f},{236,0x453718},{236,0x453719},{236,0x45371a},{236,0x49948e},{236,0x4e0ceb},{236,0x4e3fbd},{236,0x50a759},{236,0x570087},{236,0x57961b},{236,0x60ec79},{236,0x6aafa5},{236,0x6ca884},{236,0x739935},{236,0x74b294},
{237,0x0},{237,0x1},{237,0x2},{237,0x3},{237,0x28160},{237,0x6956b},{237,0x717a9},{237,0xaa976},{237,0xebd81},{237,0x141bcf},{237,0x163989},{237,0x2321b8},{237,0x27a208},{237,0x369d08},{237,0x3f90a4},{237,0x403e30},{237,0x44e95f},{237,0x453718},{237,0x453719},{237,0x49948e},{237,0x4a2546},{237,0x4bea26},{237,0x4e0ceb},{237,0x4e3fbd},{237,0x52eaec},{237,0x57961b},{237,0x6ca884},{237,0x739935},{237,0x74b294},
{238,0x0},{238,0x1},{238,0x2},{238,0x3},{238,0x775a},{238,0x28160},{238,0x48b65},{238,0x51eca},{238,0x6956b},{238,0x89f70},{238,0xaa976},{238,0xcb37b},{238,0xebd81},{238,0x13e952},{238,0x163989},{238,0x1ab357},{238,0x2321b8},{238,0x27a208},{238,0x2d9174},{238,0x3785ef},{238,0x44e95f},{238,0x49948e},{238,0x4a2546},{238,0x4bea26},{238,0x4e3fbd},{238,0x52eaec},{238,0x593d6e},{238,0x5c414a},{238,0x5c8932},{238,0x6ca884},{238,0x739935},{238,0x7684df},{238,0x7acef7},
{239,0x0},{239,0x1},{239,0x2},{239,0x3},{239,0x48b65},{239,0xebd81},{239,0x163989},{239,0x166069},{239,0x18ef9c},{239,0x1ffda8},{239,0x2321b8},{239,0x27a208},{239,0x292f9e},{239,0x2d53d3},{239,0x2d9174},{239,0x3785ef},{239,0x38e3a7},{239,0x41b80a},{239,0x44e95f},{239,0x49948e},{239,0x4a2546},{239,0x4bea26},{239,0x4e3fbd},{239,0x593d6e},{239,0x5b66e5},{239,0x5c414a},{239,0x6ca884},{239,0x7684dd},{239,0x7684de},{239,0x7684df},{239,0x7684e0},
{240,0x0},{240,0x1},{240,0x2},{240,0x3},{240,0x48b65},{240,0xae9d9},{240,0xebd81},{240,0xf82d4},{240,0x163989},{240,0x18ef9c},{240,0x2321b8},{240,0x2789bc},{240,0x292f9e},{240,0x2d53d3},{240,0x2f1362},{240,0x3785ef},{240,0x38e3a7},{240,0x41b80a},{240,0x44e95f},{240,0x4a2546},{240,0x4bea26},{240,0x593d6e},{240,0x5b66e5},{240,0x5c414a},{240,0x721747},{240,0x7684de},{240,0x7684df},{240,0x7ee4af},
{241,0x0},{241,0x1},{241,0x2},{241,0x3},{241,0x16c28},{241,0x2ac6f},{241,0x48b65},{241,0xebd81},{241,0xf82d4},{241,0x163989},{241,0x18ef9c},{241,0x2321b8},{241,0x2789bc},{241,0x2d53d3},{241,0x3785ef},{241,0x38e3a7},{241,0x406395},{241,0x44e95f},{241,0x4a2546},{241,0x4bea26},{241,0x593d6e},{241,0x61222d},{241,0x721747},{241,0x7635fc},{241,0x7684df},{241,0x7ee4af},
{242,0x0},{242,0x1},{242,0x2},{242,0x3},{242,0x2ac6f},{242,0xcd2f1},{242,0x169a05},{242,0x18ef9c},{242,0x1a130b},{242,0x3397ad},{242,0x360603},{242,0x38e3a7},{242,0x399de5},{242,0x4a2546},{242,0x4bea26},{242,0x57b443},{242,0x593d6e},{242,0x61e707},{242,0x678cc4},{242,0x721747},{242,0x7635fc},{242,0x7684df},{242,0x7ee4af},{242,0x7fc374},
{243,0x0},{243,0x1},{243,0x2},{243,0x3},{243,0x586f6},{243,0xbaf06},{243,0x169a05},{243,0x18ef9c},{243,0x1a130a},{243,0x1a130b},{243,0x1a130c},{243,0x2518d9},{243,0x27ebb7},{243,0x297b59},{243,0x3397ad},{243,0x360603},{243,0x38817f},{243,0x38e3a7},{243,0x3a61db},{243,0x484bf5},{243,0x4b9418},{243,0x4bea26},{243,0x57b443},{243,0x602da1},{243,0x671c91},{243,0x678cc4},{243,0x6b7c09},{243,0x7065db},{243,0x721747},{243,0x7635fc},{243,0x793ef2},{243,0x7ee4af},
{244,0x0},{244,0x1},{244,0x2},{244,0x3},{244,0xbaf06},{244,0x18ef9c},{244,0x1a130b},{244,0x2077ee},{244,0x20b511},{244,0x2518d9},{244,0x27ebb7},{244,0x28b88e},{244,0x297b59},{244,0x2c5843},{244,0x30c4ce},{244,0x312f80},{244,0x368049},{244,0x38e3a7},{244,0x4097ce},{244,0x484bf5},{244,0x4b5013},{244,0x4bea26},{244,0x50001c},{244,0x563c91},{244,0x5bb317},{244,0x602da1},{244,0x671c91},{244,0x7065db},{244,0x721747},{244,0x7635fc},{244,0x77a545},{244,0x7ee4af},
{245,0x0},{245,0x1},{245,0x2},{245,0x3},{245,0x756d0},{245,0x1a130b},{245,0x1f12a0},{245,0x2518d9},{245,0x28b88e},{245,0x2c5843},{245,0x312f80},{245,0x38e3a7},{245,0x3a515a},{245,0x4097ce},{245,0x4b56f5},{245,0x4c88a4},{245,0x563c91},{245,0x5bb317},{245,0x5eb3ad},{245,0x602da1},{245,0x6429ec},{245,0x671c91},{245,0x6d4be3},{245,0x7065db},{245,0x721747},{245,0x7635fc},{245,0x7b44fa},{245,0x7ee4af},
{246,0x0},{246,0x1},{246,0x2},{246,0x3},{246,0xba142},{246,0x1560d3},{246,0x160c98},{246,0x1a130b},{246,0x1a39ba},{246,0x1f12a0},{246,0x26e8b3},{246,0x28b88e},{246,0x2a8868},{246,0x2c5843},{246,0x38e3a7},{246,0x3e76cc},{246,0x4097cd},{246,0x4097ce},{246,0x4097cf},{246,0x5501e0},{246,0x563c91},{246,0x602da1},{246,0x671c91},{246,0x7065db},{246,0x721747},{246,0x7d14d5},{246,0x7ee4af},
{247,0x0},{247,0x1},{247,0x2},{247,0x3},{247,0x337ea},{247,0xba142},{247,0x1f12a0},{247,0x2348fe},{247,0x28b88e},{247,0x2c5843},{247,0x38e3a7},{247,0x3a0a40},{247,0x4097ce},{247,0x419e46},{247,0x46214a},{247,0x48dab1},{247,0x52e6b1},{247,0x54b68c},{247,0x563c91},{247,0x710051},{247,0x797520},{247,0x7d14d5},{247,0x7ee4af},
{248,0x0},{248,0x1},{248,0x2},{248,0x3},{248,0x337ea},{248,0xba142},{248,0x1071da},{248,0x148969},{248,0x1f12a0},{248,0x2348fe},{248,0x28b88e},{248,0x2c5843},{248,0x2e16f1},{248,0x305873},{248,0x3eb78d},{248,0x4097ce},{248,0x46214a},{248,0x478610},{248,0x4f8ba1},{248,0x52e6b1},{248,0x68e5b0},{248,0x710051},{248,0x758e5a},{248,0x797520},
{249,0x0},{249,0x1},{249,0x2},{249,0x3},{249,0x337ea},{249,0xba142},{249,0x148969},{249,0x1a39ba},{249,0x1f12a0},{249,0x261c88},{249,0x2884d4},{249,0x4097ce},{249,0x40c828},{249,0x46214a},{249,0x4f8ba1},{249,0x52e419},{249,0x52e6b1},{249,0x627db0},{249,0x675697},{249,0x6ab58b},{249,0x6e147f},{249,0x70bdc0},{249,0x70bdc1},{249,0x70bdc2},{249,0x70bdc3},
{250,0x0},{250,0x1},{250,0x2},{250,0x3},{250,0x337ea},{250,0xba142},{250,0x148969},{250,0x18dee5},{250,0x1d98ae},{250,0x261c88},{250,0x28e146},{250,0x33b80d},{250,0x348e51},{250,0x4097ce},{250,0x40c828},{250,0x44271c},{250,0x46214a},{250,0x4f8ba1},{250,0x5137dd},{250,0x52e6b1},{250,0x63614e},{250,0x6ab58b},{250,0x70bdc1},{250,0x70bdc2},{250,0x721555},
{251,0x0},{251,0x1},{251,0x2},{251,0x3},{251,0x4f217},{251,0xba142},{251,0x148969},{251,0x18dee5},{251,0x1a4144},{251,0x1be934},{251,0x2420bb},{251,0x28e146},{251,0x33b80d},{251,0x348e51},{251,0x378148},{251,0x3ed149},{251,0x4097ce},{251,0x40c828},{251,0x4277a2},{251,0x434f5f},{251,0x44271c},{251,0x46214a},{251,0x4f8ba1},{251,0x5137dd},{251,0x520dfb},{251,0x52e6b1},{251,0x54c14c},{251,0x63614e},{251,0x6ab58b},{251,0x70bdc2},
{252,0x0},{252,0x1},{252,0x2},{252,0x3},{252,0xba142},{252,0x167699},{252,0x1be934},{252,0x1cc0f1},{252,0x1f4828},{252,0x303147},{252,0x348e51},{252,0x378148},{252,0x3ed149},{252,0x4097ce},{252,0x40c828},{252,0x434f5f},{252,0x46214a},{252,0x4d714b},{252,0x4f8ba1},{252,0x51a2ec},{252,0x53ba37},{252,0x54c14c},{252,0x5bad27},{252,0x68a325},{252,0x6ab58b},
{253,0x0},{253,0x1},{253,0x2},{253,0x3},{253,0x76680},{253,0xba142},{253,0x167698},{253,0x167699},{253,0x1b1177},{253,0x1c5512},{253,0x258275},{253,0x303147},{253,0x348e51},{253,0x378148},{253,0x3ed149},{253,0x434f5f},{253,0x44fed9},{253,0x46214a},{253,0x51a2ec},{253,0x53ba37},{253,0x54c14c},{253,0x6a49ac},{253,0x6ab58b},{253,0x6f3c92},{253,0x795151},{253,0x7b5ac7},
{254,0x0},{254,0x1},{254,0x2},{254,0x3},{254,0x8d7ec},{254,0xba142},{254,0x167699},{254,0x1b1177},{254,0x1c5512},{254,0x1d2ccf},{254,0x258275},{254,0x2d0863},{254,0x2fd239},{254,0x303147},{254,0x3c9177},{254,0x3ed149},{254,0x42e381},{254,0x434f5f},{254,0x51a2ec},{254,0x53ba37},{254,0x54c14c},{254,0x56cc86},{254,0x61b1e5},{254,0x61b1e6},{254,0x6ab58b},{254,0x7aefb8},
};
struct hard_double_mantissa
{
  int exp;
  uint64_t mant;
};
static const hard_double_mantissa hard_double[] = {
{0,0x9cb6dff3d004},{0,0x1d6249fdb700d},{0,0x2a4a31d18c872},{0,0x2accaa99b0bdb},{0,0x2e055c9a3f6ba},{0,0x30f925fc31016},{0,0x47ddd61990838},{0,0x4bc7201fbc45f},{0,0x526903bee0130},{0,0x612bc3a77a978},{0,0x666587a4004f8},{0,0x730d67819e8d2},{0,0x74cedd4da293b},{0,0x8cdbee7b99632},{0,0x8d663be19b2df},{0,0x92eb71f493043},{0,0x9714a82dac994},{0,0x978e403f788bf},{0,0xa7b340b0032fa},{0,0xaae25cb2b39eb},{0,0xb26f581f1b37b},{0,0xb604f44521666},{0,0xb7a7b41a8b513},{0,0xbf5388c9b8a04},{0,0xc396c98f8d898},{0,0xc79c27851372c},{0,0xd5ff550073b49},{0,0xd799824cb18a9},{0,0xe2ff9114fca96},{0,0xe355605f34d1e},{0,0xe61acf033d1a4},{0,0xe7926965c4a74},{0,0xee07b22313fab},{0,0xf4ddbdecf5070},{0,0xf78b507ed7c3f},
{1,0x13e7ec6cd1ae9},{1,0x19a0e4cb62b9c},{1,0x19b7dcf732c65},{1,0x1fa182c40c60d},{1,0x24427618d5afd},{1,0x2f1c807ef117e},{1,0x33b68794c8a7a},{1,0x4599225ce719a},{1,0x4f3375ca8e923},{1,0x56d009e55709d},{1,0x59283684dba76},{1,0x5e6c97e8e7bb2},{1,0x728f513c9c484},{1,0x7ae3a09ead5dd},{1,0x8746fcb1f8cb0},{1,0x9b32779048951},{1,0x9c0d12ba605f2},{1,0xa8f14364fdc7b},{1,0xb532efb95a7eb},{1,0xbe72ec4922dfd},{1,0xbead1a4870f48},{1,0xc6aac0be69a3d},{1,0xcc359e067a348},{1,0xd243f646eaf51},{1,0xdc0f644627f56},{1,0xe5dad24564f5a},{1,0xf971ae43def63},{1,0xfd85a70816d60},
{2,0x3dfc78d23608},{2,0x144a22c0ded75},{2,0x1fa182c40c60d},{2,0x24427618d5afd},{2,0x2f1c807ef117e},{2,0x33b68794c8a7a},{2,0x358d16531af09},{2,0x44badcf7d7f39},{2,0x4599225ce719a},{2,0x59283684dba76},{2,0x5e6c97e8e7bb2},{2,0x650b8b349df80},{2,0x67552e7fd291a},{2,0x6a6a393eb36fc},{2,0x7ae3a09ead5dd},{2,0x7d3cd551a40d2},{2,0x8746fcb1f8cb0},{2,0x9081fd1794398},{2,0x92aeea45aaedf},{2,0x977f624b7cf36},{2,0x9b32779048951},{2,0x9c0d12ba605f2},{2,0xa8f14364fdc7b},{2,0xb0cccc7200ca4},{2,0xb532efb95a7eb},{2,0xd243f646eaf51},{2,0xdc491d37507f8},{2,0xe3cb90af211bb},{2,0xe5dad24564f5a},{2,0xed7cd92511d2d},{2,0xf040e48c43898},{2,0xf1e779b0375b3},{2,0xf971ae43def63},{2,0xfffba634018da},
{3,0x3dfc78d23608},{3,0x7843797eae0a},{3,0xee01059502db},{3,0x144a22c0ded75},{3,0x17008167207ca},{3,0x1fa182c40c60d},{3,0x376cb30bdeb92},{3,0x39ebaebb6485b},{3,0x4599225ce719a},{3,0x462e901c38fd3},{3,0x4c2f9aebe2b8c},{3,0x5322ec68b277f},{3,0x59283684dba76},{3,0x5e6c97e8e7bb2},{3,0x650b8b349df80},{3,0x67552e7fd291a},{3,0x6ff795e9a5aaf},{3,0x7ae3a09ead5dd},{3,0x7d3cd551a40d2},{3,0x828c133e4df90},{3,0x85b2cedb20cbb},{3,0x8ca4f40602362},{3,0x977f624b7cf36},{3,0x9b32779048951},{3,0xb532efb95a7eb},{3,0xcc7f40343dcd3},{3,0xd179eefadd11a},{3,0xd243f646eaf51},{3,0xed7cd92511d2d},{3,0xf040e48c43898},{3,0xf1e779b0375b3},{3,0xf87dcaf495552},{3,0xf971ae43def63},{3,0xfcd384653f0e1},
{4,0x741705dc629c},{4,0xea0878d4cabd},{4,0xf7f8e38d1b03},{4,0x17008167207ca},{4,0x1fa182c40c60d},{4,0x24a3e7ac3a793},{4,0x376cb30bdeb92},{4,0x39ebaebb6485b},{4,0x3dddd337a9f6e},{4,0x513f4a9a58c0e},{4,0x5322ec68b277f},{4,0x59283684dba76},{4,0x5e6c97e8e7bb2},{4,0x650b8b349df80},{4,0x7ae3a09ead5dd},{4,0x84f0e4abd321a},{4,0x85b2cedb20cbb},{4,0x86dde8825ee6c},{4,0x8ca4f40602362},{4,0xa73d3e92a9ff8},{4,0xab75316ebe882},{4,0xb532efb95a7eb},{4,0xb731b1fd32211},{4,0xba98e49c0b559},{4,0xbbdb9281f635f},{4,0xbdd3f1164662e},{4,0xc7262567ba42a},{4,0xcc7f40343dcd3},{4,0xd179eefadd11a},{4,0xd71a98d242643},{4,0xf1e779b0375b3},{4,0xf75aa4d715a97},{4,0xf971ae43def63},{4,0xfcc51628f4eb9},
{5,0x1735e3c84e4b5},{5,0x196fb5c9c019a},{5,0x1fa182c40c60d},{5,0x376cb30bdeb92},{5,0x39ebaebb6485b},{5,0x3dddd337a9f6e},{5,0x44d7b9706c38a},{5,0x4b6c367b9fed4},{5,0x4f60f0c5d8a56},{5,0x513f4a9a58c0e},{5,0x5a67a7ad08f1c},{5,0x650b8b349df80},{5,0x66fc24dcf6f32},{5,0x7ae3a09ead5dd},{5,0x84f0e4abd321a},{5,0x86dde8825ee6c},{5,0x88caec58eaabe},{5,0x8b7e13cd91052},{5,0xab75316ebe882},{5,0xb532efb95a7eb},{5,0xb6c265f19f9af},{5,0xb731b1fd32211},{5,0xba98e49c0b559},{5,0xbb2e406202ca1},{5,0xbbdb9281f635f},{5,0xc7262567ba42a},{5,0xd2525452f6a0d},{5,0xdc0f644627f56},{5,0xe31b65350fd30},{5,0xef71b8ec92c2f},{5,0xf75aa4d715a97},{5,0xf971ae43def63},{5,0xff0e6b2b1fe5d},
{6,0x1735e3c84e4b5},{6,0x195dc8924f7ef},{6,0x196fb5c9c019a},{6,0x1e716e63c0269},{6,0x1fa182c40c60d},{6,0x29adb242924fb},{6,0x376cb30bdeb92},{6,0x39ebaebb6485b},{6,0x3dddd337a9f6e},{6,0x4366d1e8dbaf4},{6,0x44d7b9706c38a},{6,0x4a29ab3436bbc},{6,0x4b6c367b9fed4},{6,0x4f60f0c5d8a56},{6,0x513f4a9a58c0e},{6,0x5a67a7ad08f1c},{6,0x6556e74d6a3d2},{6,0x66fc24dcf6f32},{6,0x6aa5a425db27d},{6,0x84f0e4abd321a},{6,0x86dde8825ee6c},{6,0x8b7e13cd91052},{6,0x90738edb4a170},{6,0x98330b0d48d4e},{6,0xb6c265f19f9af},{6,0xb731b1fd32211},{6,0xbb2e406202ca1},{6,0xbbdb9281f635f},{6,0xd2525452f6a0d},{6,0xf75aa4d715a97},{6,0xf971ae43def63},
{7,0x96dec97a2c86},{7,0x137e5674e7d6c},{7,0x1735e3c84e4b5},{7,0x196fb5c9c019a},{7,0x1fa182c40c60d},{7,0x376cb30bdeb92},{7,0x39ebaebb6485b},{7,0x3d69c27a5d343},{7,0x3dddd337a9f6e},{7,0x4a29ab3436bbc},{7,0x4f60f0c5d8a56},{7,0x513f4a9a58c0e},{7,0x6aa5a425db27d},{7,0x7d651a8e90e05},{7,0x84f0e4abd321a},{7,0x85e7669719043},{7,0x86dde8825ee6c},{7,0x89f8c0bf54a28},{7,0x8b7e13cd91052},{7,0x8e91f7dc8dfb4},{7,0x98138b1fbe5c9},{7,0xbbdb9281f635f},{7,0xcec287dcadad9},{7,0xd2525452f6a0d},{7,0xd4f1a39e847e4},{7,0xdf0084557fe39},{7,0xe1a97d3765252},{7,0xe53ba4931fa1e},{7,0xef3e80ce5219a},{7,0xf3144c4e22efb},{7,0xf75aa4d715a97},{7,0xf971ae43def63},{7,0xfa107f55d5950},
{8,0x418af6146fde},{8,0x5d8d9cb46191},{8,0x688c06f08a21},{8,0x96dec97a2c86},{8,0xda76a97cb9ac},{8,0x137e5674e7d6c},{8,0x196fb5c9c019a},{8,0x1f9e48b105208},{8,0x2372c9df6ff85},{8,0x316fa39d603e1},{8,0x3d69c27a5d343},{8,0x42af984d8aafd},{8,0x4f60f0c5d8a56},{8,0x6789e3750f790},{8,0x6aa5a425db27d},{8,0x70d1745dcd1e2},{8,0x7d8c9980929f6},{8,0x84f0e4abd321a},{8,0x86dde8825ee6c},{8,0x89c16e44308e7},{8,0x8ad975ea0ce73},{8,0x8b7e13cd91052},{8,0x90738edb4a170},{8,0x960da7cc8746c},{8,0x9f5ed7e04a904},{8,0xa43926413d081},{8,0xade7c61071b28},{8,0xafb3b3519fe91},{8,0xb516449f7961c},{8,0xcec287dcadad9},{8,0xd2525452f6a0d},{8,0xd4f1a39e847e4},{8,0xe0e2069fc4b1e},{8,0xe7bf929ce0625},{8,0xef2518f4f3381},
{9,0x418af6146fde},{9,0x96dec97a2c86},{9,0xda76a97cb9ac},{9,0x137e5674e7d6c},{9,0x17fd9ee470d97},{9,0x196fb5c9c019a},{9,0x2c31eee1c8e2b},{9,0x2c56ab2477914},{9,0x316fa39d603e1},{9,0x31f0c415b4c10},{9,0x33673d49f819e},{9,0x361a20fb5d586},{9,0x42af984d8aafd},{9,0x457b4bf1d2f25},{9,0x54cb84b82ce18},{9,0x6aa5a425db27d},{9,0x70d1745dcd1e2},{9,0x7fa544079287a},{9,0x84f0e4abd321a},{9,0x86dde8825ee6c},{9,0x8b7e13cd91052},{9,0x90738edb4a170},{9,0x960da7cc8746c},{9,0x994064d4b9b9c},{9,0x9cb41601446ab},{9,0x9d0394a5a641b},{9,0x9f5ed7e04a904},{9,0xa43926413d081},{9,0xa934d83f41db5},{9,0xade7c61071b28},{9,0xae69a5519ba49},{9,0xb033451e39fe3},{9,0xb7aa3d73f6657},{9,0xc16cb4d77b186},{9,0xcec287dcadad9},{9,0xd2525452f6a0d},{9,0xe0e2069fc4b1e},{9,0xe7bf929ce0625},{9,0xef2518f4f3381},{9,0xf45338cda4248},{9,0xf49072921c9cc},{9,0xfa2a8b8359cc8},
{10,0x687cdc0b783},{10,0x418af6146fde},{10,0x96dec97a2c86},{10,0x137e5674e7d6c},{10,0x1b62441850468},{10,0x26bc92333a617},{10,0x2c31eee1c8e2b},{10,0x2c56ab2477914},{10,0x2d569b98fdc4a},{10,0x33673d49f819e},{10,0x4484ca068d0fc},{10,0x54cb84b82ce18},{10,0x5e651cffe0d42},{10,0x60cc1a64772ec},{10,0x70d1745dcd1e2},{10,0x7fa544079287a},{10,0x84f0e4abd321a},{10,0x86dde8825ee6c},{10,0x8b7e13cd91052},{10,0x90738edb4a170},{10,0x9cb41601446ab},{10,0x9f5ed7e04a904},{10,0xb2925695b8a15},{10,0xb5bb4eeef90c2},{10,0xb6300d36aadb8},{10,0xb7aa3d73f6657},{10,0xb9294ba9c9fce},{10,0xc05dfcd24922b},{10,0xc16cb4d77b186},{10,0xcd28f4994c81d},{10,0xcec287dcadad9},{10,0xe0e2069fc4b1e},{10,0xe87692658de42},{10,0xf45338cda4248},{10,0xf63b0354519d1},
{11,0x418af6146fde},{11,0x96dec97a2c86},{11,0x12681857f9877},{11,0x20b761d16601b},{11,0x26bc92333a617},{11,0x2d569b98fdc4a},{11,0x2f109225e19af},{11,0x33673d49f819e},{11,0x5111453dbe817},{11,0x54cb84b82ce18},{11,0x69630a9521551},{11,0x6f6222bbc0c20},{11,0x70d1745dcd1e2},{11,0x84f0e4abd321a},{11,0x86dde8825ee6c},{11,0x9ba7c0bdc4769},{11,0x9c754dd0ee267},{11,0x9f5ed7e04a904},{11,0xb2925695b8a15},{11,0xb6300d36aadb8},{11,0xb7aa3d73f6657},{11,0xc05dfcd24922b},{11,0xc0eb86ea343a9},{11,0xc81c19a7f089a},{11,0xc95828929fe1c},{11,0xcb8909eb37c6b},{11,0xda74439b16721},{11,0xe0e2069fc4b1e},{11,0xe87692658de42},{11,0xf45338cda4248},{11,0xf49072921c9cc},{11,0xf63b0354519d1},{11,0xfc0a52d9b2ee6},
{12,0x73c0d74c095},{12,0x1cfa1acfb5ae8},{12,0x20b761d16601b},{12,0x26bc92333a617},{12,0x2ce997b2cf10c},{12,0x2d569b98fdc4a},{12,0x33673d49f819e},{12,0x4af7fd0369627},{12,0x4b731dafea439},{12,0x4e25dd3747e96},{12,0x69630a9521551},{12,0x6f3367d398637},{12,0x6f6222bbc0c20},{12,0x70d1745dcd1e2},{12,0x776c55ed95759},{12,0x84f0e4abd321a},{12,0x893ed0c808ec6},{12,0xb2925695b8a15},{12,0xb6300d36aadb8},{12,0xb7aa3d73f6657},{12,0xc0eb86ea343a9},{12,0xc81c19a7f089a},{12,0xc95828929fe1c},{12,0xd3ce9c1a3179f},{12,0xe0e2069fc4b1e},{12,0xf45338cda4248},{12,0xf49072921c9cc},{12,0xf50ae19eaa529},{12,0xf63b0354519d1},{12,0xf999e7dc9dc23},
{13,0x73c0d74c095},{13,0x28127630b607},{13,0x1cfa1acfb5ae8},{13,0x26bc92333a617},{13,0x33673d49f819e},{13,0x34fa7f78994c0},{13,0x38da479b51e1f},{13,0x3de591768d6e4},{13,0x4af7fd0369627},{13,0x4b731dafea439},{13,0x4dc66fc14d2d3},{13,0x4e25dd3747e96},{13,0x69630a9521551},{13,0x6f3367d398637},{13,0x70d1745dcd1e2},{13,0x773e22ceb0539},{13,0x776c55ed95759},{13,0x893ed0c808ec6},{13,0x936ed2a3c7647},{13,0xb2925695b8a15},{13,0xb5fe643fd9092},{13,0xb6300d36aadb8},{13,0xb7aa3d73f6657},{13,0xc95828929fe1c},{13,0xd3ce9c1a3179f},{13,0xda99cf41be75a},{13,0xed26a0a36657e},{13,0xf11bb0cf4e0c4},{13,0xf45338cda4248},{13,0xf49072921c9cc},{13,0xf63b0354519d1},{13,0xfd9f4d46285d0},
{14,0x73c0d74c095},{14,0x28127630b607},{14,0xad856d0e17bd},{14,0x149edccb22e0f},{14,0x18d488e7f8911},{14,0x18e3b9b374169},{14,0x26bc92333a617},{14,0x2b25ba4065dfb},{14,0x2d90626eaa244},{14,0x34fa7f78994c0},{14,0x38da479b51e1f},{14,0x3de591768d6e4},{14,0x41e9224f5da23},{14,0x4af7fd0369627},{14,0x4dc66fc14d2d3},{14,0x4e25dd3747e96},{14,0x5d15b26b80e2f},{14,0x69630a9521551},{14,0x70d1745dcd1e2},{14,0x773e22ceb0539},{14,0x7b576215ced33},{14,0x807b30a1a135d},{14,0x82b8569aa1c95},{14,0x87008645db47c},{14,0x92a3a688f5efb},{14,0x94b06d31021d4},{14,0x9d0c8e16ff3b7},{14,0xa555968d2e21d},{14,0xaefc0a8099bb0},{14,0xb2925695b8a15},{14,0xb6300d36aadb8},{14,0xb7aa3d73f6657},{14,0xbf0d3ef3e4c96},{14,0xc95828929fe1c},{14,0xd3ce9c1a3179f},{14,0xda99cf41be75a},{14,0xec9c244d4b019},{14,0xf63b0354519d1},{14,0xfd9f4d46285d0},
{15,0x73c0d74c095},{15,0x28127630b607},{15,0xad856d0e17bd},{15,0x2b25ba4065dfb},{15,0x2d90626eaa244},{15,0x2fcb6ce74621b},{15,0x32a6de3b00814},{15,0x38da479b51e1f},{15,0x3d61b4f557c21},{15,0x3de591768d6e4},{15,0x41e9224f5da23},{15,0x4af7fd0369627},{15,0x4e25dd3747e96},{15,0x5406d7b77522b},{15,0x5d15b26b80e2f},{15,0x5f1ca820511c3},{15,0x683f632df77b4},{15,0x69630a9521551},{15,0x70d1745dcd1e2},{15,0x7b576215ced33},{15,0x7bf3c3479b55b},{15,0x82b8569aa1c95},{15,0x839edd0496a80},{15,0x8fe6bf6f336c9},{15,0x9d0c8e16ff3b7},{15,0x9d314a074c176},{15,0xa2ee63ed44d24},{15,0xa555968d2e21d},{15,0xa6095b7ee8a99},{15,0xb2925695b8a15},{15,0xb339215193b4d},{15,0xb7aa3d73f6657},{15,0xb8c932b510382},{15,0xbf0d3ef3e4c96},{15,0xd22330e0a0b38},{15,0xd3ce9c1a3179f},{15,0xd67d70a62f3f6},{15,0xda99cf41be75a},{15,0xec9c244d4b019},{15,0xfd9f4d46285d0},{15,0xff161d0d00d77},
{16,0x73c0d74c095},{16,0x1a216bfffb34},{16,0x28127630b607},{16,0x99a98cc0682f},{16,0x1b08ebaf88d16},{16,0x2d90626eaa244},{16,0x2fcb6ce74621b},{16,0x32a6de3b00814},{16,0x3452da414c01d},{16,0x38da479b51e1f},{16,0x3d61b4f557c21},{16,0x3de591768d6e4},{16,0x41e9224f5da23},{16,0x46708fa963825},{16,0x4e25dd3747e96},{16,0x5d15b26b80e2f},{16,0x5f1ca820511c3},{16,0x683f632df77b4},{16,0x69630a9521551},{16,0x7b576215ced33},{16,0x7e3779f49e45c},{16,0x82391f56bf9f0},{16,0x85bbf80f6445b},{16,0x8a5ff7efbba43},{16,0x8fe6bf6f336c9},{16,0x9d314a074c176},{16,0xa2ee63ed44d24},{16,0xb7aa3d73f6657},{16,0xbcc98846e1d95},{16,0xce11559200097},{16,0xd22330e0a0b38},{16,0xd3ce9c1a3179f},{16,0xda99cf41be75a},{16,0xec9c244d4b019},{16,0xf6b9fc2703b94},{16,0xfd9f4d46285d0},{16,0xff161d0d00d77},
{17,0x1a216bfffb34},{17,0x99a98cc0682f},{17,0x14802acca6463},{17,0x19264a2528c11},{17,0x1a247a7d801a4},{17,0x1b08ebaf88d16},{17,0x2d90626eaa244},{17,0x2fcb6ce74621b},{17,0x38da479b51e1f},{17,0x397ed1b093ec0},{17,0x3b1dfe4854d20},{17,0x3d61b4f557c21},{17,0x3de591768d6e4},{17,0x3e83904bd93a2},{17,0x3fa56ba25ab22},{17,0x41e9224f5da23},{17,0x457af76da69c3},{17,0x46708fa963825},{17,0x4e25dd3747e96},{17,0x51f1fb6be7ab2},{17,0x5d15b26b80e2f},{17,0x683f632df77b4},{17,0x73bad52d9e439},{17,0x7e3779f49e45c},{17,0x8258e924a70d2},{17,0x9d314a074c176},{17,0xa2ee63ed44d24},{17,0xaec2fdba6319b},{17,0xb3d8f4f71ac7c},{17,0xb7aa3d73f6657},{17,0xbb3d3c5f59ee8},{17,0xbdeb639d63516},{17,0xce11559200097},{17,0xda99cf41be75a},{17,0xdd9d64ac92294},{17,0xdda599750c5eb},{17,0xe693b94f80707},{17,0xec34ce59a47ea},{17,0xec9c244d4b019},{17,0xfd9f4d46285d0},{17,0xff161d0d00d77},
{18,0x1a216bfffb34},{18,0x7557e183cd52},{18,0x99a98cc0682f},{18,0x14802acca6463},{18,0x1a247a7d801a4},{18,0x2045136ce0340},{18,0x23129a57f42c0},{18,0x2478db8637716},{18,0x2665ac5c404dc},{18,0x2d90626eaa244},{18,0x2fcb6ce74621b},{18,0x397ed1b093ec0},{18,0x3b1dfe4854d20},{18,0x3c3fd99ed64a1},{18,0x3d61b4f557c21},{18,0x3de591768d6e4},{18,0x3e83904bd93a2},{18,0x3fa56ba25ab22},{18,0x40c746f8dc2a3},{18,0x46708fa963825},{18,0x4ae7e2ce50cfc},{18,0x4e25dd3747e96},{18,0x51c3210a7232a},{18,0x51f1fb6be7ab2},{18,0x5f1ca820511c3},{18,0x6516421c7bc41},{18,0x683f632df77b4},{18,0x848a2a597ed47},{18,0x8596e38d9e26c},{18,0x8a0c50792930d},{18,0x8f63cc0b29101},{18,0x950d2fe818f67},{18,0xa2ee63ed44d24},{18,0xb6e3d22865634},{18,0xb7aa3d73f6657},{18,0xccd59caa6a750},{18,0xda528770c03cf},{18,0xdda599750c5eb},{18,0xe07320602056b},{18,0xe693b94f80707},{18,0xec9c244d4b019},{18,0xede82210e10bd},{18,0xff161d0d00d77},
{19,0x1a216bfffb34},{19,0x7557e183cd52},{19,0x99a98cc0682f},{19,0xdd3b8c41a10c},{19,0x14802acca6463},{19,0x2045136ce0340},{19,0x3574b597cd79e},{19,0x3b1dfe4854d20},{19,0x3c3c229e7d7a0},{19,0x3d61b4f557c21},{19,0x3de591768d6e4},{19,0x3e83904bd93a2},{19,0x3ee81019c0b4c},{19,0x40c746f8dc2a3},{19,0x46708fa963825},{19,0x4ae7e2ce50cfc},{19,0x4c19d859eada8},{19,0x4e25dd3747e96},{19,0x51f1fb6be7ab2},{19,0x579b5f48d7918},{19,0x5993a2fe24258},{19,0x5f1ca820511c3},{19,0x60e983160dd06},{19,0x683f632df77b4},{19,0x6b75c7a78779e},{19,0x76eb235dcad10},{19,0x7f0d668eacf3e},{19,0x8596e38d9e26c},{19,0x8a0c50792930d},{19,0x8f63cc0b29101},{19,0x92f70be6e3797},{19,0x950d2fe818f67},{19,0x95426c257910d},{19,0xb7aa3d73f6657},{19,0xb9b5162381e81},{19,0xc1d023b33fd5f},{19,0xca452c4fba87c},{19,0xccd59caa6a750},{19,0xd27f00875a5b6},{19,0xdca37d1b445f2},{19,0xddc55871c5d73},{19,0xe07320602056b},{19,0xf3f2046534ac7},{19,0xf90fb542c9904},{19,0xfaf4e50c38d4c},{19,0xff161d0d00d77},
{20,0x7557e183cd52},{20,0x99a98cc0682f},{20,0xdd3b8c41a10c},{20,0x14802acca6463},{20,0x1ee4a23ed6ce8},{20,0x2045136ce0340},{20,0x3b1dfe4854d20},{20,0x3e83904bd93a2},{20,0x40c746f8dc2a3},{20,0x41a9232995e2f},{20,0x46708fa963825},{20,0x474430ffbdd2f},{20,0x49d374a297d9e},{20,0x4e25dd3747e96},{20,0x51f1fb6be7ab2},{20,0x523dc2e63a7aa},{20,0x579b5f48d7918},{20,0x5993a2fe24258},{20,0x5f1ca820511c3},{20,0x60e983160dd06},{20,0x6494732202a5d},{20,0x683f632df77b4},{20,0x6f954345e1262},{20,0x76eb235dcad10},{20,0x7f0d668eacf3e},{20,0x8a0c50792930d},{20,0x8e24745ecf88a},{20,0x8f63cc0b29101},{20,0x950d2fe818f67},{20,0x9b7aa35cab7f4},{20,0xb19a241d18280},{20,0xb97402cd42b7c},{20,0xb9b5162381e81},{20,0xca452c4fba87c},{20,0xccd59caa6a750},{20,0xdb81a1c4c2e72},{20,0xdca37d1b445f2},{20,0xddc55871c5d73},{20,0xe07320602056b},{20,0xe12aea754a3f4},{20,0xf04714593fd70},{20,0xf90fb542c9904},{20,0xfaf4e50c38d4c},
{21,0xce60e4e90fcb},{21,0x14802acca6463},{21,0x1ce5aa8069a28},{21,0x1d778c81cc3c0},{21,0x1ee4a23ed6ce8},{21,0x2045136ce0340},{21,0x2a222436bec99},{21,0x37781e01fae57},{21,0x3b1dfe4854d20},{21,0x40c746f8dc2a3},{21,0x439202b66724e},{21,0x46708fa963825},{21,0x492add9e4c0a7},{21,0x49d374a297d9e},{21,0x51f1fb6be7ab2},{21,0x5993a2fe24258},{21,0x5d3e930a18faf},{21,0x60e983160dd06},{21,0x6494732202a5d},{21,0x683f632df77b4},{21,0x6a158d6153a51},{21,0x6bea5339ec50b},{21,0x8a0c50792930d},{21,0x8cecc3a587d1a},{21,0x8e24745ecf88a},{21,0x8f63cc0b29101},{21,0x950d2fe818f67},{21,0x9b7aa35cab7f4},{21,0xa48d6121c05f1},{21,0xb19a241d18280},{21,0xb6e3d22865634},{21,0xb9b5162381e81},{21,0xbf3336521e2e5},{21,0xca452c4fba87c},{21,0xccd59caa6a750},{21,0xdb81a1c4c2e72},{21,0xe07320602056b},{21,0xf04714593fd70},{21,0xf2a241ce37077},{21,0xf7d00d37679fe},{21,0xf90fb542c9904},{21,0xfaf4e50c38d4c},
{22,0x1d90b77bb90b},{22,0xce60e4e90fcb},{22,0x124e63593f5e0},{22,0x14802acca6463},{22,0x17440bed9ecee},{22,0x2045136ce0340},{22,0x313b527a9ef9b},{22,0x3ee796cb3bb97},{22,0x439202b66724e},{22,0x46708fa963825},{22,0x51f1fb6be7ab2},{22,0x55e8b2f22f501},{22,0x60e983160dd06},{22,0x634d923909726},{22,0x6494732202a5d},{22,0x64991ac0d260a},{22,0x64a13953922d5},{22,0x683f632df77b4},{22,0x77bea08fb43d9},{22,0x7a961369bfa67},{22,0x7f9806c894422},{22,0x82d1e2fdc0d85},{22,0x86965f6cd4bcc},{22,0x8a0c50792930d},{22,0x8cecc3a587d1a},{22,0x8e24745ecf88a},{22,0x8f63cc0b29101},{22,0x9f204e7065912},{22,0xb2dfe7d633038},{22,0xb530712ef5a28},{22,0xb6e3d22865634},{22,0xb9b5162381e81},{22,0xca452c4fba87c},{22,0xccd59caa6a750},{22,0xdb81a1c4c2e72},{22,0xe07320602056b},{22,0xe1aa70c9420c0},{22,0xf2a241ce37077},{22,0xfaf4e50c38d4c},
{23,0x2826e6800213},{23,0x8ad950eebdcf},{23,0xa0f3c55062c5},{23,0x14802acca6463},{23,0x17440bed9ecee},{23,0x2045136ce0340},{23,0x439202b66724e},{23,0x46708fa963825},{23,0x4facc5c0f9baf},{23,0x4fee8d1aba3b1},{23,0x51f1fb6be7ab2},{23,0x55e8b2f22f501},{23,0x60e983160dd06},{23,0x6494732202a5d},{23,0x64991ac0d260a},{23,0x64a13953922d5},{23,0x683f632df77b4},{23,0x6cdc8b1d1175e},{23,0x7962d6d930db0},{23,0x7a961369bfa67},{23,0x86965f6cd4bcc},{23,0x8a0c50792930d},{23,0x8e24745ecf88a},{23,0x8f63cc0b29101},{23,0x98b75bb59e6ad},{23,0x9f4373e14ffcd},{23,0xb530712ef5a28},{23,0xbb6eb9e30a49e},{23,0xbd50f81a943c2},{23,0xbe928a12f6c5a},{23,0xca452c4fba87c},{23,0xccd59caa6a750},{23,0xd2520f4aebb97},{23,0xd5f7ce8c7e49e},{23,0xdb81a1c4c2e72},{23,0xe07320602056b},{23,0xf2a241ce37077},{23,0xfaf4e50c38d4c},
{24,0x8ad950eebdcf},{24,0xa0f3c55062c5},{24,0x124e63593f5e0},{24,0x14802acca6463},{24,0x1929f2a1e0f39},{24,0x2045136ce0340},{24,0x439202b66724e},{24,0x4852cde0ed749},{24,0x48dbeff6d7872},{24,0x4d483396acfdc},{24,0x4fee8d1aba3b1},{24,0x5588e47e7ad7d},{24,0x62befb1c083b2},{24,0x64991ac0d260a},{24,0x64a13953922d5},{24,0x683f632df77b4},{24,0x6cdc8b1d1175e},{24,0x7da7eb6e91723},{24,0x9830d6bd6d48e},{24,0x9b759505df0d0},{24,0x9b759505df0d1},{24,0x9f4373e14ffcd},{24,0xa1028ca7ef835},{24,0xbb6eb9e30a49e},{24,0xc46bdb3158a6b},{24,0xca452c4fba87c},{24,0xcc694cefab91a},{24,0xccd59caa6a750},{24,0xdb81a1c4c2e72},{24,0xe07320602056b},{24,0xf2a241ce37077},{24,0xf5aaf7cbc8728},{24,0xf9b24b6ef1922},{24,0xfb776afeb53ac},
{25,0xa0f3c55062c5},{25,0x124e63593f5e0},{25,0x13f8ab7273b0a},{25,0x1929f2a1e0f39},{25,0x2045136ce0340},{25,0x20f87527a5320},{25,0x2ca3af46801ef},{25,0x327d0064e2000},{25,0x3755bd25e1345},{25,0x439202b66724e},{25,0x46ea80225b53f},{25,0x5588e47e7ad7d},{25,0x5d150ee906829},{25,0x64991ac0d260a},{25,0x64a13953922d5},{25,0x683f632df77b4},{25,0x6cdc8b1d1175e},{25,0x9f4373e14ffcd},{25,0xa1028ca7ef835},{25,0xae38a3457ce6a},{25,0xb825169e643cd},{25,0xb8c0a1127db9c},{25,0xbb6eb9e30a49e},{25,0xca452c4fba87c},{25,0xccd59caa6a750},{25,0xd3f5775a373c6},{25,0xdb81a1c4c2e72},{25,0xe07320602056b},{25,0xecb8f6ef59d2d},{25,0xf2a241ce37077},{25,0xf783ca1921570},{25,0xf9b24b6ef1922},{25,0xfc47605c54ed5},
{26,0x5b8ef9f7d42a},{26,0xa0f3c55062c5},{26,0x15100c78e4aca},{26,0x1929f2a1e0f39},{26,0x2045136ce0340},{26,0x20f87527a5320},{26,0x423f87664b0c5},{26,0x432ac03ebea79},{26,0x439202b66724e},{26,0x46ea80225b53f},{26,0x5588e47e7ad7d},{26,0x5614c117f07cc},{26,0x5d150ee906829},{26,0x60db241e4c57f},{26,0x6cdc8b1d1175e},{26,0x7b45b893352d9},{26,0x8be46ec300c58},{26,0x91d70e8880e29},{26,0x920aa2c037073},{26,0x92ce9617c797d},{26,0x93aed0413dd55},{26,0x9f4373e14ffcd},{26,0xb8c0a1127db9c},{26,0xbb6eb9e30a49e},{26,0xc12d291557c39},{26,0xccd59caa6a750},{26,0xcdc56a1ed2751},{26,0xd3f5775a373c6},{26,0xd7bb8c8f7d11c},{26,0xe07320602056b},{26,0xe506653d93b13},{26,0xecb8f6ef59d2d},{26,0xfc47605c54ed5},
{27,0xa0f3c55062c5},{27,0x15100c78e4aca},{27,0x155fe32ea5bb8},{27,0x1929f2a1e0f39},{27,0x2045136ce0340},{27,0x20b08a08454ab},{27,0x2c510797a5e8c},{27,0x423f87664b0c5},{27,0x432ac03ebea79},{27,0x46ea80225b53f},{27,0x5588e47e7ad7d},{27,0x5614c117f07cc},{27,0x5ef81983a96d4},{27,0x60db241e4c57f},{27,0x68674e88d802b},{27,0x6cdc8b1d1175e},{27,0x6d2b8ddb9c5b9},{27,0x70c17da3cd849},{27,0x7887c53bec62d},{27,0x7e61165a4e43e},{27,0x843a6778b024f},{27,0x8be46ec300c58},{27,0x9f4373e14ffcd},{27,0xba10f850af160},{27,0xbb6eb9e30a49e},{27,0xc6bf60bca9d91},{27,0xcdc56a1ed2751},{27,0xd3f5775a373c6},{27,0xd563ac364da22},{27,0xd5d881f4da271},{27,0xe07320602056b},{27,0xe506653d93b13},{27,0xe6d3e16494674},{27,0xecb8f6ef59d2d},{27,0xfc47605c54ed5},
{28,0x1297d23ab682},{28,0xa0f3c55062c5},{28,0xfb78fc1d5f3f},{28,0x2045136ce0340},{28,0x20b08a08454ab},{28,0x432ac03ebea79},{28,0x46b27197fdc49},{28,0x46ea80225b53f},{28,0x5614c117f07cc},{28,0x5ef81983a96d4},{28,0x66fbd1e0c6bfa},{28,0x68674e88d802b},{28,0x6cdc8b1d1175e},{28,0x6d8e4deae5726},{28,0x70fc97ed78a12},{28,0x7887c53bec62d},{28,0x7e61165a4e43e},{28,0x843a6778b024f},{28,0x97f1db970c3d3},{28,0x9f4373e14ffcd},{28,0xa178fd10998a4},{28,0xb6846f001138f},{28,0xbb6eb9e30a49e},{28,0xc1170d4fda118},{28,0xcdc56a1ed2751},{28,0xd3f5775a373c6},{28,0xd563ac364da22},{28,0xd965e7ae33132},{28,0xdd64ac5f65d1d},{28,0xe07320602056b},{28,0xe506653d93b13},{28,0xecb8f6ef59d2d},{28,0xfc47605c54ed5},
{29,0x1297d23ab682},{29,0xf4011190a8fb},{29,0xfb78fc1d5f3f},{29,0x18c7329297dcc},{29,0x1c97525855fe8},{29,0x2045136ce0340},{29,0x20b08a08454ab},{29,0x393b456eef178},{29,0x432ac03ebea79},{29,0x46b27197fdc49},{29,0x5614c117f07cc},{29,0x5ef81983a96d4},{29,0x6388ac82b48ef},{29,0x63afb40640b80},{29,0x66fbd1e0c6bfa},{29,0x68674e88d802b},{29,0x6d8e4deae5726},{29,0x82db77a2ec7df},{29,0x843a6778b024f},{29,0x8e99e85db014a},{29,0x9392c8fc0f0da},{29,0x972c5b787a0f9},{29,0x97f1db970c3d3},{29,0xa178fd10998a4},{29,0xa6cc459888e9e},{29,0xb6846f001138f},{29,0xbb6eb9e30a49e},{29,0xc1170d4fda118},{29,0xc224ec8f71d70},{29,0xc255694333080},{29,0xcdc56a1ed2751},{29,0xd3f5775a373c6},{29,0xd8ad11dcce871},{29,0xd965e7ae33132},{29,0xda51893de4a83},{29,0xe07320602056b},{29,0xe506653d93b13},{29,0xf0431669c2fcb},{29,0xf0a6e2ccf44f4},{29,0xfc47605c54ed5},
{30,0x1c97525855fe8},{30,0x20b08a08454ab},{30,0x26d537d9ae2b1},{30,0x2e2a59704fcd9},{30,0x393b456eef178},{30,0x432ac03ebea79},{30,0x4d7c345952213},{30,0x50d149fbe38d2},{30,0x51c600d598e45},{30,0x5ef81983a96d4},{30,0x6388ac82b48ef},{30,0x68674e88d802b},{30,0x6d8e4deae5726},{30,0x6df4d3d0e542c},{30,0x82db77a2ec7df},{30,0x843a6778b024f},{30,0x9392c8fc0f0da},{30,0x93e6decb9b64b},{30,0x972c5b787a0f9},{30,0x9bd295b03bfa3},{30,0xa178fd10998a4},{30,0xb9d8e9c65186a},{30,0xbb6eb9e30a49e},{30,0xc1170d4fda118},{30,0xcdc56a1ed2751},{30,0xd3f5775a373c6},{30,0xd7cd941c7abb9},{30,0xd8ad11dcce871},{30,0xd965e7ae33132},{30,0xda51893de4a83},{30,0xdfcaf4c107a89},{30,0xe07320602056b},{30,0xe506653d93b13},{30,0xf0a6e2ccf44f4},{30,0xf79bea65da56a},
{31,0x825cea19b7de},{31,0x1c97525855fe8},{31,0x20b08a08454ab},{31,0x29e1d1bb1d222},{31,0x2e2a59704fcd9},{31,0x30446cdedcc08},{31,0x36bccc8b19c88},{31,0x393b456eef178},{31,0x4173dc6c96423},{31,0x432ac03ebea79},{31,0x4b61db4b65070},{31,0x51c600d598e45},{31,0x62ab5a7464ee9},{31,0x6388ac82b48ef},{31,0x68674e88d802b},{31,0x6a50bc3c42b12},{31,0x6d8e4deae5726},{31,0x7a54ffa8fcb0b},{31,0x93e6decb9b64b},{31,0x972c5b787a0f9},{31,0xa08a3032d344e},{31,0xa178fd10998a4},{31,0xaf295c2fb5638},{31,0xaf45f85b4a669},{31,0xb9d8e9c65186a},{31,0xd8ad11dcce871},{31,0xd965e7ae33132},{31,0xda51893de4a83},{31,0xe07320602056b},{31,0xe506653d93b13},{31,0xe5417f873ecdc},{31,0xef5903c927ae1},{31,0xf0431669c2fcb},{31,0xf7901ed5ce0d8},{31,0xf79bea65da56a},
{32,0x59b0919fde46},{32,0xbe08d0527e1d},{32,0x18ae6851e84af},{32,0x20b08a08454ab},{32,0x2e2a59704fcd9},{32,0x33ab68780b4fc},{32,0x36bccc8b19c88},{32,0x393b456eef178},{32,0x3fbd7ce6e0fab},{32,0x4173dc6c96423},{32,0x432ac03ebea79},{32,0x486ad9f25a5e1},{32,0x51c600d598e45},{32,0x5eba4d5b9617e},{32,0x6388ac82b48ef},{32,0x6a50bc3c42b12},{32,0x76c2291f2e6b3},{32,0x79dff0b3c4110},{32,0x93e6decb9b64b},{32,0x972c5b787a0f9},{32,0xb4026480a7275},{32,0xb9d8e9c65186a},{32,0xbc9ba107d0e60},{32,0xc4cbc0cc97876},{32,0xcfb6394cbc301},{32,0xd8ad11dcce871},{32,0xda51893de4a83},{32,0xe07320602056b},{32,0xe506653d93b13},{32,0xf0431669c2fcb},{32,0xf4be82b1cc283},{32,0xf79bea65da56a},
{33,0x59b0919fde46},{33,0xbe08d0527e1d},{33,0x11d9f5f784ced},{33,0x13e9d8ee453d1},{33,0x1670b22de3b53},{33,0x18ae6851e84af},{33,0x2a46df202d7f7},{33,0x32822302e1564},{33,0x393b456eef178},{33,0x3b4a99b15515d},{33,0x3fcca7917aa04},{33,0x41dab9d1d7b9f},{33,0x432ac03ebea79},{33,0x444e0f8b599d0},{33,0x486ad9f25a5e1},{33,0x6388ac82b48ef},{33,0x6a50bc3c42b12},{33,0x76c2291f2e6b3},{33,0x8478bf5dd5a3d},{33,0x93e6decb9b64b},{33,0x972c5b787a0f9},{33,0xa5059c7adc706},{33,0xb4026480a7275},{33,0xc606e28fe3dbd},{33,0xc86b449c88036},{33,0xcfb6394cbc301},{33,0xda51893de4a83},{33,0xf0431669c2fcb},{33,0xf4be82b1cc283},{33,0xf79bea65da56a},
{34,0xbe08d0527e1d},{34,0x13e9d8ee453d1},{34,0x18ae6851e84af},{34,0x25190da1d4d30},{34,0x2725a8f3e9e21},{34,0x32c626834a802},{34,0x393b456eef178},{34,0x41dab9d1d7b9f},{34,0x4282bd084b30c},{34,0x432ac03ebea79},{34,0x444e0f8b599d0},{34,0x4e9393d7def76},{34,0x558b1a335fa65},{34,0x6a50bc3c42b12},{34,0x76c2291f2e6b3},{34,0x824c342f0913d},{34,0x8478bf5dd5a3d},{34,0x8bc58881addb2},{34,0x91d0d387bbd2c},{34,0x93e6decb9b64b},{34,0x9cb43419e48d2},{34,0xb4026480a7275},{34,0xb9ff4f154e9b0},{34,0xc86b449c88036},{34,0xcfb6394cbc301},{34,0xd33d017802194},{34,0xd4c8f6c905cb3},{34,0xdaeac800d31cd},{34,0xf717a4347f22b},{34,0xf79bea65da56a},{34,0xfadf5e305cd19},
{35,0xa0cb57d239c5},{35,0xbe08d0527e1d},{35,0xd084988441a2},{35,0xd79d99dd15e3},{35,0xe8dd500f2c97},{35,0x228e11f9913af},{35,0x25190da1d4d30},{35,0x2725a8f3e9e21},{35,0x32c626834a802},{35,0x34ba7990d271b},{35,0x3813da6ade5bc},{35,0x393b456eef178},{35,0x41dab9d1d7b9f},{35,0x444e0f8b599d0},{35,0x4522c9e2190c0},{35,0x4e9393d7def76},{35,0x558b1a335fa65},{35,0x61481cc0ccf86},{35,0x6986299ada4d9},{35,0x6cc66bbdbbf30},{35,0x76c2291f2e6b3},{35,0x783361aa80bd6},{35,0x824c342f0913d},{35,0x8478bf5dd5a3d},{35,0x8bc58881addb2},{35,0x97d1fca05634a},{35,0xae4edeb676de0},{35,0xb4026480a7275},{35,0xb8d0c3a7c59e6},{35,0xbda09cd1b6faa},{35,0xc86b449c88036},{35,0xc9411a611798b},{35,0xcfb6394cbc301},{35,0xd4c8f6c905cb3},{35,0xf5dd5dc3ce731},{35,0xfb77a51dd9e97},
{36,0xa0cb57d239c5},{36,0xbe08d0527e1d},{36,0xd084988441a2},{36,0xe8dd500f2c97},{36,0x15e144a4e28fc},{36,0x1dcfe036b994a},{36,0x2725a8f3e9e21},{36,0x41dab9d1d7b9f},{36,0x444e0f8b599d0},{36,0x4522c9e2190c0},{36,0x48f94c7dd3810},{36,0x4b0b189c8af4f},{36,0x4e9393d7def76},{36,0x558b1a335fa65},{36,0x61481cc0ccf86},{36,0x6986299ada4d9},{36,0x6f78fbb4132cd},{36,0x7054c1e716d68},{36,0x76c2291f2e6b3},{36,0x783361aa80bd6},{36,0x78a533bec5be3},{36,0x7e8f69998f9db},{36,0x824c342f0913d},{36,0x8478bf5dd5a3d},{36,0x8bc58881addb2},{36,0x952a087e32b8c},{36,0xaec7aa75404ba},{36,0xbd2b0e90d20b7},{36,0xbff8323dd7c6a},{36,0xc12217316cc50},{36,0xc86b449c88036},{36,0xc9411a611798b},{36,0xd4c8f6c905cb3},{36,0xe4421df547624},{36,0xe58ffa48f4fce},
{37,0x381889cfea2c},{37,0xa0cb57d239c5},{37,0xd084988441a2},{37,0x1dcfe036b994a},{37,0x1f086e151d2ac},{37,0x2725a8f3e9e21},{37,0x323a6c3e60c39},{37,0x390b40c1d3ac3},{37,0x444e0f8b599d0},{37,0x4522c9e2190c0},{37,0x4b0b189c8af4f},{37,0x4c1b5005bacf8},{37,0x558b1a335fa65},{37,0x61481cc0ccf86},{37,0x7054c1e716d68},{37,0x74bab84ef13a5},{37,0x783361aa80bd6},{37,0x78a533bec5be3},{37,0x824c342f0913d},{37,0x8478bf5dd5a3d},{37,0x85df513458816},{37,0x8bc58881addb2},{37,0xa23878cdd6b53},{37,0xaec7aa75404ba},{37,0xbd2b0e90d20b7},{37,0xbff8323dd7c6a},{37,0xc9411a611798b},{37,0xd4c8f6c905cb3},{37,0xde7fd041880a1},{37,0xe39a1abed3eb7},{37,0xe4421df547624},{37,0xe58ffa48f4fce},{37,0xe7339a1493bc5},{37,0xf3121db5fb9f1},{37,0xf6f8bdf32c385},
{38,0x381889cfea2c},{38,0xa0cb57d239c5},{38,0xb98eeaaf578b},{38,0xd084988441a2},{38,0xdf355ba54359},{38,0x10505998856c3},{38,0x2725a8f3e9e21},{38,0x2b39930dd26f9},{38,0x323a6c3e60c39},{38,0x4522c9e2190c0},{38,0x4ed8b04671da4},{38,0x558b1a335fa65},{38,0x5de7f9fec232e},{38,0x61481cc0ccf86},{38,0x67f5bd7eed977},{38,0x74bab84ef13a5},{38,0x76770cfcb8fbe},{38,0x783361aa80bd6},{38,0x78a533bec5be3},{38,0x79f53a2bacabd},{38,0x824c342f0913d},{38,0x8478bf5dd5a3d},{38,0x8bc58881addb2},{38,0x9e5f5a23f9b15},{38,0xa1690238a206e},{38,0xa23878cdd6b53},{38,0xaec7aa75404ba},{38,0xbac413c65deb0},{38,0xbff8323dd7c6a},{38,0xc9411a611798b},{38,0xd00a31d7a7dc1},{38,0xd4c8f6c905cb3},{38,0xde7fd041880a1},{38,0xe39a1abed3eb7},{38,0xe58ffa48f4fce},{38,0xf3121db5fb9f1},{38,0xf476cbed4b957},{38,0xfb15c2ba421db},
{39,0x381889cfea2c},{39,0x3ee7a10ba90c},{39,0x91b42aea6537},{39,0xa0cb57d239c5},{39,0xb98eeaaf578b},{39,0xd084988441a2},{39,0xdf355ba54359},{39,0x2b39930dd26f9},{39,0x323a6c3e60c39},{39,0x329b4b68c3c49},{39,0x357821c383268},{39,0x4ffa25ae61d4f},{39,0x56a8c1d094bfb},{39,0x5b5995ce1b33b},{39,0x646d47a126380},{39,0x783361aa80bd6},{39,0x78b3c64f40159},{39,0x79f53a2bacabd},{39,0x8082b9b827ea5},{39,0x9b379f9d48614},{39,0x9e5f5a23f9b15},{39,0xa23878cdd6b53},{39,0xaec7aa75404ba},{39,0xbff8323dd7c6a},{39,0xc9411a611798b},{39,0xcb57a25d91255},{39,0xcc69f260dc8c2},{39,0xd00a31d7a7dc1},{39,0xde7fd041880a1},{39,0xe39a1abed3eb7},{39,0xe58ffa48f4fce},{39,0xf3121db5fb9f1},{39,0xf476cbed4b957},{39,0xf5ff15e3e0120},
{40,0x3005711b3872},{40,0x381889cfea2c},{40,0x3ee7a10ba90c},{40,0x9130d6dd7760},{40,0xb98eeaaf578b},{40,0xd084988441a2},{40,0xdf355ba54359},{40,0x1daad776838b8},{40,0x214035a5e3a05},{40,0x24484056b3697},{40,0x323a6c3e60c39},{40,0x38bac894b5291},{40,0x39eb25420abca},{40,0x3d99dc5e1a224},{40,0x46ca01063dfba},{40,0x4ffa25ae61d4f},{40,0x6edcb4c4e161c},{40,0x783361aa80bd6},{40,0x79f53a2bacabd},{40,0x7dee32e4edaea},{40,0x8082b9b827ea5},{40,0x8c2a4a27d32e9},{40,0x997b4aef809fb},{40,0x9a9449090e64e},{40,0x9e5f5a23f9b15},{40,0xaa365786eb2f5},{40,0xad97e8ed9013f},{40,0xaec7aa75404ba},{40,0xb6c80d95b3ed4},{40,0xbff8323dd7c6a},{40,0xc9411a611798b},{40,0xcb57a25d91255},{40,0xcc1e82fe4e115},{40,0xcc69f260dc8c2},{40,0xd00a31d7a7dc1},{40,0xdfe737256e5d6},{40,0xe39a1abed3eb7},{40,0xe58ffa48f4fce},{40,0xf3121db5fb9f1},
{41,0xb98eeaaf578b},{41,0xd084988441a2},{41,0xdf355ba54359},{41,0x24484056b3697},{41,0x33831202d7943},{41,0x39eb25420abca},{41,0x3d99dc5e1a224},{41,0x43560a3739239},{41,0x46ca01063dfba},{41,0x473b07b93e0ff},{41,0x49b00de122acb},{41,0x4f41618ce47ad},{41,0x6edcb4c4e161c},{41,0x783361aa80bd6},{41,0x79f53a2bacabd},{41,0x8082b9b827ea5},{41,0x830fc229bfed3},{41,0x832a8bd173a46},{41,0x84627d362e829},{41,0x88d7564d00ae9},{41,0x9a9449090e64e},{41,0x9d2692b79cd78},{41,0x9e5f5a23f9b15},{41,0xaa365786eb2f5},{41,0xad97e8ed9013f},{41,0xaec7aa75404ba},{41,0xb6c80d95b3ed4},{41,0xb9ca6bb711c4b},{41,0xc9411a611798b},{41,0xcc1e82fe4e115},{41,0xd00a31d7a7dc1},{41,0xd414d03be73ad},{41,0xe4b8c4de672c0},{41,0xe58ffa48f4fce},{41,0xe5e73085384ef},{41,0xf3121db5fb9f1},{41,0xfbbcb0e418eb0},
{42,0x13630d1294ef7},{42,0x24484056b3697},{42,0x39eb25420abca},{42,0x3d99dc5e1a224},{42,0x46ca01063dfba},{42,0x473b07b93e0ff},{42,0x49b00de122acb},{42,0x50ed1a42f7cd2},{42,0x5e8ad889bf308},{42,0x63dee0b8b2fd2},{42,0x6b8a93a6cd610},{42,0x6edcb4c4e161c},{42,0x70dab22d996a7},{42,0x76c4ad5be5811},{42,0x783361aa80bd6},{42,0x79f53a2bacabd},{42,0x7e827e2ab64c8},{42,0x8082b9b827ea5},{42,0x832a8bd173a46},{42,0x84627d362e829},{42,0x9d2692b79cd78},{42,0x9e5f5a23f9b15},{42,0xa03bceb0f2a87},{42,0xaa365786eb2f5},{42,0xb6c80d95b3ed4},{42,0xb9ca6bb711c4b},{42,0xd00a31d7a7dc1},{42,0xd66e44b686b1e},{42,0xd6e0b7e3101af},{42,0xdab0b4378be14},{42,0xe58ffa48f4fce},{42,0xe730555c7f884},{42,0xea2f01895cf97},{42,0xf55cb980e71d2},{42,0xfbbcb0e418eb0},
{43,0x102c3c24d3cc},{43,0x19e65d4fcf1d},{43,0x69baa3ff9354},{43,0x1fc2377c89d79},{43,0x24484056b3697},{43,0x2b71c5dfbb970},{43,0x39eb25420abca},{43,0x3d99dc5e1a224},{43,0x3e996d50698b4},{43,0x46ca01063dfba},{43,0x4d8676d94c754},{43,0x5e8ad889bf308},{43,0x65158d54246e6},{43,0x702a91188efc6},{43,0x70dab22d996a7},{43,0x76c4ad5be5811},{43,0x783361aa80bd6},{43,0x7a30f4f9e707c},{43,0x7e827e2ab64c8},{43,0x8082b9b827ea5},{43,0x84627d362e829},{43,0x879d0628c98de},{43,0x974c6a5e8cd8f},{43,0x987c8147cd7a8},{43,0x9d2692b79cd78},{43,0xaa365786eb2f5},{43,0xb6c80d95b3ed4},{43,0xb9ca6bb711c4b},{43,0xbd2044af4985b},{43,0xc21794d80f6b2},{43,0xe58ffa48f4fce},{43,0xea2f01895cf97},{43,0xea8d3eb3f1405},{43,0xf109a5a891000},{43,0xf35f263180d2c},{43,0xf55cb980e71d2},{43,0xfbbcb0e418eb0},
{44,0x1484b7153ae0},{44,0x19e65d4fcf1d},{44,0x59949b708f28},{44,0xfa9251566e39},{44,0x24484056b3697},{44,0x2a618132ca051},{44,0x2ef37b0b007b8},{44,0x39eb25420abca},{44,0x55ea5eadf4109},{44,0x5be568ac00950},{44,0x702a91188efc6},{44,0x70dab22d996a7},{44,0x76c4ad5be5811},{44,0x7a30f4f9e707c},{44,0x8082b9b827ea5},{44,0x84627d362e829},{44,0x879d0628c98de},{44,0x8865ee928d6bd},{44,0x957a65754dde5},{44,0x977db7a01a555},{44,0x987c8147cd7a8},{44,0x9d2692b79cd78},{44,0xaa365786eb2f5},{44,0xb3ab4e1b1a5a8},{44,0xb5f3a0fe53f3b},{44,0xb6c80d95b3ed4},{44,0xbd1f9787679bc},{44,0xd51399e39a600},{44,0xd612638b4d853},{44,0xe2a656158a1ba},{44,0xe2f41f0006327},{44,0xe58ffa48f4fce},{44,0xea8d3eb3f1405},{44,0xf35f263180d2c},{44,0xf72f6ce50f4a5},{44,0xf9a8d66cb8d21},{44,0xfbbcb0e418eb0},
{45,0x1484b7153ae0},{45,0x59949b708f28},{45,0x17b01ff83b13e},{45,0x1a90bbebea430},{45,0x1f4e501033af8},{45,0x23f6866a0c8d6},{45,0x24484056b3697},{45,0x2bc4624178813},{45,0x2eccf367b3f4e},{45,0x2ef37b0b007b8},{45,0x55ea5eadf4109},{45,0x660018793594d},{45,0x70dab22d996a7},{45,0x7310fd3a0d5ea},{45,0x76c4ad5be5811},{45,0x7a30f4f9e707c},{45,0x8082b9b827ea5},{45,0x84627d362e829},{45,0x8956bb20da412},{45,0x957a65754dde5},{45,0x977db7a01a555},{45,0x987c8147cd7a8},{45,0xa722e29ae7215},{45,0xa7a2476ec0b3e},{45,0xaa365786eb2f5},{45,0xb3ab4e1b1a5a8},{45,0xb6c80d95b3ed4},{45,0xb836c1e44f299},{45,0xc5edd3bca726a},{45,0xc66d389080b94},{45,0xc9cc41004fa87},{45,0xd0567c71afe1b},{45,0xd51399e39a600},{45,0xdc6e2435c0436},{45,0xf72f6ce50f4a5},{45,0xf9b2c605b8347},{45,0xfbbcb0e418eb0},
{46,0xf509c6b7db35},{46,0x13fc6fd662f17},{46,0x1a90bbebea430},{46,0x1f4e501033af8},{46,0x2bc4624178813},{46,0x40d76077b648e},{46,0x5519ac5142aaa},{46,0x5aa6ad7d54043},{46,0x5de2fbfb66df6},{46,0x608e8c90d4b27},{46,0x660018793594d},{46,0x671e0503824ec},{46,0x6b0b2ed2f3ce6},{46,0x70dab22d996a7},{46,0x7310fd3a0d5ea},{46,0x76c4ad5be5811},{46,0x8082b9b827ea5},{46,0x90e99e3453ddd},{46,0x977db7a01a555},{46,0x987c8147cd7a8},{46,0x9dd10ad90ef42},{46,0xa00f645b47173},{46,0xa7a2476ec0b3e},{46,0xaa365786eb2f5},{46,0xaf352a823a509},{46,0xb2e870f37ee00},{46,0xb3ab4e1b1a5a8},{46,0xb6c80d95b3ed4},{46,0xb836c1e44f299},{46,0xbe5af0a92d89f},{46,0xcac76384847dd},{46,0xd2258a9db7cbd},{46,0xec156a8cec973},{46,0xf9b2c605b8347},{46,0xfbbcb0e418eb0},
{47,0xc624dc976612},{47,0xf509c6b7db35},{47,0x13fc6fd662f17},{47,0x1a90bbebea430},{47,0x40d76077b648e},{47,0x452cbf7193bef},{47,0x5519ac5142aaa},{47,0x575930c03bbe5},{47,0x58fbbf9c93cca},{47,0x608e8c90d4b27},{47,0x671e0503824ec},{47,0x6b0b2ed2f3ce6},{47,0x70dab22d996a7},{47,0x76c4ad5be5811},{47,0x780c59f71cdca},{47,0x8082b9b827ea5},{47,0x8721327dffeb3},{47,0x87236207e47fb},{47,0x90e99e3453ddd},{47,0x977db7a01a555},{47,0x9c45f2d18a48e},{47,0x9dd10ad90ef42},{47,0xa00f645b47173},{47,0xa3d8d5e503e59},{47,0xa7a2476ec0b3e},{47,0xa846ab96936a9},{47,0xab6bb8f87d824},{47,0xaf352a823a509},{47,0xb2e870f37ee00},{47,0xb2fe9c0bf71ef},{47,0xb3ab4e1b1a5a8},{47,0xb6c80d95b3ed4},{47,0xd07cfc12b7353},{47,0xd2258a9db7cbd},{47,0xdca67cf713fcb},{47,0xec156a8cec973},{47,0xee343e8072c22},{47,0xfbbcb0e418eb0},
{48,0xd7e8a7c6813},{48,0x1c82a07d78a7},{48,0xc624dc976612},{48,0xfa9251566e39},{48,0x13fc6fd662f17},{48,0x1a90bbebea430},{48,0x3a457e339bd1f},{48,0x40d76077b648e},{48,0x452cbf7193bef},{48,0x5519ac5142aaa},{48,0x5fec760b70ee6},{48,0x671e0503824ec},{48,0x6b0b2ed2f3ce6},{48,0x7691bd408d0a4},{48,0x76c4ad5be5811},{48,0x7ab059cdc09a6},{48,0x7dfa6683a3d62},{48,0x87236207e47fb},{48,0x8d64a98f4e54a},{48,0x8f4f750f0d204},{48,0x90e99e3453ddd},{48,0x977db7a01a555},{48,0x98bf832dfdfaf},{48,0x9dd10ad90ef42},{48,0xa3d8d5e503e59},{48,0xa846ab96936a9},{48,0xa86b2e9aadcad},{48,0xb6c80d95b3ed4},{48,0xbd59a9ccd1324},{48,0xc89347066993b},{48,0xc9b7454663f50},{48,0xcd0151fc4730c},{48,0xdca67cf713fcb},{48,0xdfdec99ef469b},{48,0xea7f6a3730c6c},{48,0xec156a8cec973},{48,0xfbbcb0e418eb0},
{49,0xd7e8a7c6813},{49,0x1c82a07d78a7},{49,0x2963bcd28d43},{49,0xb9203cce0490},{49,0xc624dc976612},{49,0x13fc6fd662f17},{49,0x1a90bbebea430},{49,0x1c04435a5073c},{49,0x1e1fa8a031c94},{49,0x2db40e31d045f},{49,0x40d76077b648e},{49,0x452cbf7193bef},{49,0x53fab2bd9c4bd},{49,0x5519ac5142aaa},{49,0x556e73b1de1f6},{49,0x5fec760b70ee6},{49,0x671e0503824ec},{49,0x76c4ad5be5811},{49,0x7f18852243bd9},{49,0x90e99e3453ddd},{49,0x977db7a01a555},{49,0x98bf832dfdfaf},{49,0x9dd10ad90ef42},{49,0x9fabfa31278a6},{49,0xa3d8d5e503e59},{49,0xa846ab96936a9},{49,0xa86b2e9aadcad},{49,0xb6c80d95b3ed4},{49,0xc89347066993b},{49,0xe6886960db3da},{49,0xea7f6a3730c6c},{49,0xec156a8cec973},
{50,0xd7e8a7c6813},{50,0x2963bcd28d43},{50,0xa6a2c3f14b95},{50,0xc624dc976612},{50,0x1bee88eefab32},{50,0x1e1fa8a031c94},{50,0x2441405a7bfef},{50,0x282353a5cd20f},{50,0x2db40e31d045f},{50,0x30988165f2196},{50,0x30bdfd0d5c85e},{50,0x316b04936ae85},{50,0x40d76077b648e},{50,0x445a3c441af00},{50,0x452cbf7193bef},{50,0x4b22ea14ca342},{50,0x51379905f188a},{50,0x53fab2bd9c4bd},{50,0x5519ac5142aaa},{50,0x79755b9528cf6},{50,0x7e2df1b167125},{50,0x821004fcb8345},{50,0x844f896bb1480},{50,0x977db7a01a555},{50,0x9dd10ad90ef42},{50,0x9fabfa31278a6},{50,0xa3d8d5e503e59},{50,0xa86b2e9aadcad},{50,0xab244a5cdc9c0},{50,0xc89347066993b},{50,0xd95c704130c0f},{50,0xd9e792eaf984d},{50,0xfeef63f97d79b},
{51,0xd7e8a7c6813},{51,0x5a10a736d9d4},{51,0xb8c95320ad8e},{51,0xfa9251566e39},{51,0x2441405a7bfef},{51,0x30988165f2196},{51,0x30bdfd0d5c85e},{51,0x328fa2627e7c3},{51,0x40d76077b648e},{51,0x42ebd4af4f984},{51,0x5048aee35429c},{51,0x51379905f188a},{51,0x5187ddb67d4f3},{51,0x5519ac5142aaa},{51,0x674783f335bd0},{51,0x6a38aba57aff7},{51,0x79755b9528cf6},{51,0x98bf832dfdfaf},{51,0x9fabfa31278a6},{51,0xa3d8d5e503e59},{51,0xad6c70651d603},{51,0xb2923533a755d},{51,0xb4ca47aec0b95},{51,0xb86d13f0a58b2},{51,0xc89347066993b},{51,0xd95c704130c0f},{51,0xd9e792eaf984d},{51,0xdd7900248ccba},{51,0xe18ab2d23df60},{51,0xe2fe7ebbf30e0},{51,0xe60be5450aee1},{51,0xfa821e9e12585},{51,0xfeef63f97d79b},
{52,0xd7e8a7c6813},{52,0x1e128b4bfe792},{52,0x2020d33dac7e7},{52,0x30988165f2196},{52,0x37aba0d311a8f},{52,0x40d76077b648e},{52,0x42ebd4af4f984},{52,0x4c02c08049217},{52,0x4eea1fc739336},{52,0x51379905f188a},{52,0x5519ac5142aaa},{52,0x57b2b58b875f3},{52,0x5e3098223c33d},{52,0x65a792c83e3b9},{52,0x674783f335bd0},{52,0x98bf832dfdfaf},{52,0x9c0c15869adc5},{52,0xa3d8d5e503e59},{52,0xae9abb24b7421},{52,0xaffee27b02068},{52,0xb2923533a755d},{52,0xb86d13f0a58b2},{52,0xc89347066993b},{52,0xc8e4c218eb261},{52,0xcbd77393bdba5},{52,0xe18ab2d23df60},{52,0xe60be5450aee1},{52,0xeffef63e806be},{52,0xfa821e9e12585},{52,0xfeef63f97d79b},{52,0xff4b4069b9746},
{53,0x14cf903f04a90},{53,0x1c5313d5daa05},{53,0x27a7113c62fcb},{53,0x30988165f2196},{53,0x3cdde53f85e8f},{53,0x40d76077b648e},{53,0x4c02c08049217},{53,0x4db5cc7c0f2ef},{53,0x51379905f188a},{53,0x5519ac5142aaa},{53,0x5e3098223c33d},{53,0x60f5b098812f5},{53,0x76bca77587971},{53,0x7cbea1bf6e9fb},{53,0x7dad03a2ec6cc},{53,0x828c476622589},{53,0x830889cf8c7cd},{53,0x89dff9bb6d9a0},{53,0x9d034c01539cf},{53,0xa3d8d5e503e59},{53,0xaffee27b02068},{53,0xb0269e47399fe},{53,0xb2923533a755d},{53,0xb4d97a9927710},{53,0xb86d13f0a58b2},{53,0xbaf9d438ca309},{53,0xc8e4c218eb261},{53,0xcbd77393bdba5},{53,0xdcf53b2677903},{53,0xe18ab2d23df60},{53,0xe5636bc69d9a0},{53,0xe6bbfb31869bc},{53,0xfa821e9e12585},{53,0xfeef63f97d79b},
{54,0x2499a251108c},{54,0x27a7113c62fcb},{54,0x30988165f2196},{54,0x3cdde53f85e8f},{54,0x40d76077b648e},{54,0x4b5797469dcf0},{54,0x4db5cc7c0f2ef},{54,0x4e6fba7e8d8f1},{54,0x507602e9bb913},{54,0x51379905f188a},{54,0x5519ac5142aaa},{54,0x5bcf456ee369e},{54,0x6c46f3972904d},{54,0x7cbea1bf6e9fb},{54,0x7f338afb1e1b4},{54,0x802400d7db426},{54,0x828c476622589},{54,0x830889cf8c7cd},{54,0x89dff9bb6d9a0},{54,0x8d364fe7b43aa},{54,0x9a95dad80a157},{54,0x9bb001eecc20a},{54,0x9d034c01539cf},{54,0x9dadfe0ff9d58},{54,0xa5b3c92f4e6fc},{54,0xab82f4dfb2867},{54,0xaffee27b02068},{54,0xb0269e47399fe},{54,0xe18ab2d23df60},{54,0xe6bbfb31869bc},{54,0xfa821e9e12585},{54,0xfeef63f97d79b},
{55,0x5dab00976b4c},{55,0x132d173e08cd9},{55,0x19710dc581911},{55,0x19f08ccdccfe4},{55,0x1f66a83c56947},{55,0x2b1ac0384c59e},{55,0x3814c373decce},{55,0x3cdde53f85e8f},{55,0x41a7070b2d050},{55,0x430869328fe63},{55,0x4d5e3ca4b6d59},{55,0x507602e9bb913},{55,0x5519ac5142aaa},{55,0x5af6122cd3728},{55,0x65972e1efe176},{55,0x6c46f3972904d},{55,0x734594d3825c5},{55,0x7cbea1bf6e9fb},{55,0x7f338afb1e1b4},{55,0x830889cf8c7cd},{55,0x8d364fe7b43aa},{55,0x9a95dad80a157},{55,0x9bb001eecc20a},{55,0xa5b3c92f4e6fc},{55,0xab82f4dfb2867},{55,0xaffee27b02068},{55,0xb0269e47399fe},{55,0xbe9d5a60850b5},{55,0xc55a195f60ec8},{55,0xd821fd8b1a833},{55,0xe6bbfb31869bc},{55,0xfa821e9e12585},{55,0xfeef63f97d79b},
{56,0x132d173e08cd9},{56,0x19710dc581911},{56,0x19f08ccdccfe4},{56,0x1f66a83c56947},{56,0x2b1ac0384c59e},{56,0x3826e349bb761},{56,0x3cdde53f85e8f},{56,0x5519ac5142aaa},{56,0x5a03744ec5d34},{56,0x6c46f3972904d},{56,0x7cbea1bf6e9fb},{56,0x830889cf8c7cd},{56,0x9bb001eecc20a},{56,0xa2bf0d1b9e177},{56,0xa62994a842599},{56,0xa8b6fe4dc9e6c},{56,0xab82f4dfb2867},{56,0xaffee27b02068},{56,0xb0269e47399fe},{56,0xbe9d5a60850b5},{56,0xcf94879116137},{56,0xdc7f205232a47},{56,0xdd908e2a3c3d8},{56,0xe00c35b95bae6},{56,0xe6bbfb31869bc},{56,0xfeef63f97d79b},
{57,0x155e1ff8e26ae},{57,0x19710dc581911},{57,0x1f66a83c56947},{57,0x2b1ac0384c59e},{57,0x3826e349bb761},{57,0x39ba410a23b22},{57,0x3cdde53f85e8f},{57,0x42dc00ae554af},{57,0x47cc5454ae7e5},{57,0x5519ac5142aaa},{57,0x5748d72ba04dc},{57,0x5d88f494186d5},{57,0x68c52289bbac5},{57,0x7a3a88b07a91c},{57,0x7cbea1bf6e9fb},{57,0x830889cf8c7cd},{57,0x8cae82c8dc46b},{57,0x8f2b061aea071},{57,0x97d77ea73984c},{57,0x9bb001eecc20a},{57,0xa2bf0d1b9e177},{57,0xa62994a842599},{57,0xab82f4dfb2867},{57,0xaca8bd0c46a53},{57,0xbc4e2e1739ad7},{57,0xc672c7ece47ab},{57,0xc6c7b8529f220},{57,0xcf94879116137},{57,0xd22c233e6dafc},{57,0xdc7f205232a47},{57,0xdd908e2a3c3d8},{57,0xe0992d3d13a01},{57,0xf083e3e1a1494},{57,0xfeef63f97d79b},
{58,0x4bb945117b42},{58,0xaa06a4ebffb7},{58,0x111c5c997af35},{58,0x14f5967adaba1},{58,0x155e1ff8e26ae},{58,0x169070daad281},{58,0x19710dc581911},{58,0x1f66a83c56947},{58,0x28e9bddd30518},{58,0x2b1ac0384c59e},{58,0x2bff5379bb688},{58,0x2e268739eb6e0},{58,0x3cdde53f85e8f},{58,0x3f559e7bee6c1},{58,0x5353aed69ae5d},{58,0x5519ac5142aaa},{58,0x5748d72ba04dc},{58,0x64c634043117d},{58,0x6ba460f42ab40},{58,0x6c46f3972904d},{58,0x7a3a88b07a91c},{58,0x7fffeabcb51a4},{58,0x87e560fd352aa},{58,0x8cae82c8dc46b},{58,0x8f2b061aea071},{58,0x9177a4948362c},{58,0x93a2e7c7d82d3},{58,0xa2bf0d1b9e177},{58,0xa62994a842599},{58,0xafa4295121b81},{58,0xbadf0e1cac368},{58,0xbc4e2e1739ad7},{58,0xc6c7b8529f220},{58,0xc70d350a33c06},{58,0xcd43ad6b658bb},{58,0xd22c233e6dafc},{58,0xd49d4db739c89},{58,0xdd908e2a3c3d8},{58,0xf083e3e1a1494},{58,0xf5fc36e23535a},
{59,0x1016f188522a},{59,0x4bb945117b42},{59,0x14f5967adaba1},{59,0x169070daad281},{59,0x19710dc581911},{59,0x1d30d87e5bef0},{59,0x1f66a83c56947},{59,0x23cbca7fb67f8},{59,0x28e9bddd30518},{59,0x2b1ac0384c59e},{59,0x3cdde53f85e8f},{59,0x50d20ca1db806},{59,0x5353aed69ae5d},{59,0x5519ac5142aaa},{59,0x5748d72ba04dc},{59,0x5b11af973940f},{59,0x6740524b6c399},{59,0x6ba460f42ab40},{59,0x6c46f3972904d},{59,0x7989fb9a3fd67},{59,0x7a3a88b07a91c},{59,0x8cae82c8dc46b},{59,0x8f2b061aea071},{59,0x9177a4948362c},{59,0xa49a778f3378c},{59,0xa58af199bbf02},{59,0xa62994a842599},{59,0xa9654d8ec6ef1},{59,0xb084516277481},{59,0xbadf0e1cac368},{59,0xcc79edc88668e},{59,0xcd43ad6b658bb},{59,0xd22c233e6dafc},{59,0xdd908e2a3c3d8},{59,0xe9074b59ef9fa},{59,0xf4f4b7059e065},
{60,0x4bb945117b42},{60,0x19710dc581911},{60,0x28e9bddd30518},{60,0x2b1ac0384c59e},{60,0x3089e84826d5a},{60,0x32d90cf2fc9e3},{60,0x388143f4205c7},{60,0x3cdde53f85e8f},{60,0x4bb5b0976b406},{60,0x4f956292c2110},{60,0x5519ac5142aaa},{60,0x5748d72ba04dc},{60,0x619c529ffc4a2},{60,0x62f81ca3f2e91},{60,0x64faaf93fc6c9},{60,0x6ba460f42ab40},{60,0x7989fb9a3fd67},{60,0x7a3a88b07a91c},{60,0x7b35ac332b205},{60,0x87195e79a38e3},{60,0x88f8849b8ff89},{60,0x8cae82c8dc46b},{60,0x8f2b061aea071},{60,0x9177a4948362c},{60,0x956650ffbefc8},{60,0x981de507ac3a6},{60,0xa62994a842599},{60,0xbadf0e1cac368},{60,0xc11582dcb7db2},{60,0xcdc3943df892e},{60,0xcf5308837a0c5},{60,0xd22c233e6dafc},{60,0xd9409f834e07b},{60,0xdd908e2a3c3d8},{60,0xf004339c3e9f5},{60,0xf07347b4883be},{60,0xf1b33676bd351},{60,0xf4f4b7059e065},{60,0xff227be9e3397},
{61,0x2dc6e2f2b49b},{61,0x4bb945117b42},{61,0x1f8dff33923d8},{61,0x24209c1189357},{61,0x28e9bddd30518},{61,0x2b1ac0384c59e},{61,0x2b6044942f855},{61,0x346881387e17a},{61,0x37419bf371bb1},{61,0x45ea79655da12},{61,0x46f55e451aef9},{61,0x5748d72ba04dc},{61,0x619c529ffc4a2},{61,0x62f81ca3f2e91},{61,0x6ba460f42ab40},{61,0x6c46f3972904d},{61,0x79b0290866498},{61,0x834a523b75e3b},{61,0x853059270a93b},{61,0x8cae82c8dc46b},{61,0x8dc955fe2a5c1},{61,0x8f2b061aea071},{61,0x9177a4948362c},{61,0x956650ffbefc8},{61,0x981de507ac3a6},{61,0xa8bf60c989e32},{61,0xb9a742ebda418},{61,0xbadf0e1cac368},{61,0xc11582dcb7db2},{61,0xc25ba6a45de02},{61,0xce9f776f5c2aa},{61,0xcf5308837a0c5},{61,0xd22c233e6dafc},{61,0xd5b178ff26bfe},{61,0xd9409f834e07b},{61,0xdd908e2a3c3d8},{61,0xe6e1041d3a03c},{61,0xf004339c3e9f5},{61,0xf4f4b7059e065},{61,0xfa0b9977c09fe},{61,0xfc0df330f2239},
{62,0x1ebcbba0de4cd},{62,0x1f8dff33923d8},{62,0x28e9bddd30518},{62,0x2b1ac0384c59e},{62,0x3473448ae397b},{62,0x37419bf371bb1},{62,0x3ce7359c0bc6e},{62,0x3f35deacbefed},{62,0x45ea79655da12},{62,0x465b896c24520},{62,0x53fbee06104e1},{62,0x5d45a5578cc63},{62,0x619c529ffc4a2},{62,0x62f81ca3f2e91},{62,0x6c46f3972904d},{62,0x70bb43664d4d9},{62,0x75a2b240c718d},{62,0x7cdd1bd3d4424},{62,0x8064c3c104ebd},{62,0x834a523b75e3b},{62,0x8a2dafa0fa4d6},{62,0x8f2b061aea071},{62,0x981de507ac3a6},{62,0xa8bf60c989e32},{62,0xb2d7fd35f5a9f},{62,0xb9a742ebda418},{62,0xbc2c5458deb34},{62,0xc193a8d54ad8e},{62,0xc25ba6a45de02},{62,0xc3b56b94e96a3},{62,0xce9f776f5c2aa},{62,0xcf5308837a0c5},{62,0xd56a69832d455},{62,0xd5b178ff26bfe},{62,0xd64fce06b3779},{62,0xe6e1041d3a03c},{62,0xf4f4b7059e065},{62,0xfa0b9977c09fe},{62,0xfc0df330f2239},
{63,0x5f43c01a994a},{63,0x7c83bd140358},{63,0xec6442f5b8d3},{63,0x28e9bddd30518},{63,0x29bef63455baf},{63,0x3473448ae397b},{63,0x37419bf371bb1},{63,0x38bb24d23855f},{63,0x3f35deacbefed},{63,0x457f219a33ec4},{63,0x45ea79655da12},{63,0x465b896c24520},{63,0x510386ee2a184},{63,0x53fbee06104e1},{63,0x619c529ffc4a2},{63,0x62f81ca3f2e91},{63,0x6f3cb739e8463},{63,0x70bb43664d4d9},{63,0x763855b93b66a},{63,0x7cdd1bd3d4424},{63,0x8064c3c104ebd},{63,0x834a523b75e3b},{63,0x8a2dafa0fa4d6},{63,0x8dcdf93242308},{63,0x8f2b061aea071},{63,0x9c31431390173},{63,0x9da1e8eed8913},{63,0xa6d1fc76b10b0},{63,0xb2d7fd35f5a9f},{63,0xb42a73640d943},{63,0xb9a742ebda418},{63,0xbc2c5458deb34},{63,0xc3b56b94e96a3},{63,0xce9f776f5c2aa},{63,0xcf5308837a0c5},{63,0xd56a69832d455},{63,0xd64fce06b3779},{63,0xded0ce031e7e3},{63,0xe6e1041d3a03c},{63,0xf4f4b7059e065},{63,0xfa0b9977c09fe},{63,0xfb2073a59f100},{63,0xfc0df330f2239},
{64,0x239926a8865b},{64,0x419183e44b91},{64,0x5f43c01a994a},{64,0x7c83bd140358},{64,0xd2262fc8723e},{64,0x113d40cf6fa6c},{64,0x21f8b97eeb597},{64,0x28e9bddd30518},{64,0x29bef63455baf},{64,0x37419bf371bb1},{64,0x397af3f3b6ddb},{64,0x411504ceab693},{64,0x457f219a33ec4},{64,0x45ea79655da12},{64,0x465b896c24520},{64,0x53fbee06104e1},{64,0x5d45f71773cf6},{64,0x611e4d4486f9e},{64,0x619c529ffc4a2},{64,0x62f81ca3f2e91},{64,0x67717f0076cce},{64,0x763855b93b66a},{64,0x7c1d4cb255ba8},{64,0x7f94afdbc1802},{64,0x834a523b75e3b},{64,0x84eed707086e8},{64,0x855564ed022ce},{64,0x8a2dafa0fa4d6},{64,0x8a7d806dc03e5},{64,0x8dcdf93242308},{64,0x8f2b061aea071},{64,0xa94ead5f77f80},{64,0xb17f2867c7df2},{64,0xb2d7fd35f5a9f},{64,0xb42a73640d943},{64,0xb9a742ebda418},{64,0xcc4a6970a2a9c},{64,0xce9f776f5c2aa},{64,0xcf5308837a0c5},{64,0xd3e65a1dc9d82},{64,0xd56a69832d455},{64,0xd81c334a7fdbe},{64,0xda86ed95d8f7d},{64,0xe6e1041d3a03c},{64,0xf2f5c7a1a488d},{64,0xfc0df330f2239},
{65,0x71b3e3d22dc},{65,0x239926a8865b},{65,0x419183e44b91},{65,0x5f43c01a994a},{65,0xfffd98bb235a},{65,0x21f8b97eeb597},{65,0x28e9bddd30518},{65,0x29bef63455baf},{65,0x326c81ed38886},{65,0x37d99cc506d58},{65,0x465b896c24520},{65,0x530e999fb6617},{65,0x53fbee06104e1},{65,0x5d45f71773cf6},{65,0x611e4d4486f9e},{65,0x619c529ffc4a2},{65,0x62f81ca3f2e91},{65,0x67717f0076cce},{65,0x763855b93b66a},{65,0x834a523b75e3b},{65,0x855564ed022ce},{65,0x8a7d806dc03e5},{65,0x8dcdf93242308},{65,0x8f2b061aea071},{65,0x9f7e53ec6e373},{65,0xa94ead5f77f80},{65,0xb17f2867c7df2},{65,0xb199dfc0abd0b},{65,0xb2d7fd35f5a9f},{65,0xb42a73640d943},{65,0xb6d5be6053493},{65,0xc74d12f6b2f01},{65,0xd56a69832d455},{65,0xda86ed95d8f7d},{65,0xedf920eab2562},{65,0xfc0df330f2239},
{66,0x419183e44b91},{66,0x5f43c01a994a},{66,0xfffd98bb235a},{66,0x10a2bac862231},{66,0x33f19972247d5},{66,0x465b896c24520},{66,0x5708f93f211e1},{66,0x5d776b4f4c012},{66,0x6b2c75ed96229},{66,0x763855b93b66a},{66,0x834a523b75e3b},{66,0x8606e65e522c9},{66,0x8dcdf93242308},{66,0x97ffc6518b507},{66,0x9f7e53ec6e373},{66,0xa94ead5f77f80},{66,0xab3c0c88ce7b9},{66,0xb17f2867c7df2},{66,0xb2d7fd35f5a9f},{66,0xb42a73640d943},{66,0xd56a69832d455},{66,0xe262295442d54},{66,0xedf920eab2562},
{67,0x419183e44b91},{67,0x42cc89cbe956},{67,0x5f43c01a994a},{67,0xfffd98bb235a},{67,0x10a2bac862231},{67,0x33f19972247d5},{67,0x410cb435d8d3e},{67,0x465b896c24520},{67,0x53ffcfee9ec30},{67,0x5708f93f211e1},{67,0x5d776b4f4c012},{67,0x621b111dad021},{67,0x65a5303996604},{67,0x6b2c75ed96229},{67,0x740e066b1908c},{67,0x83296e0581304},{67,0x834a523b75e3b},{67,0x945ed9603393a},{67,0x97ffc6518b507},{67,0x9d338951dc415},{67,0xa707080786a84},{67,0xa94ead5f77f80},{67,0xab3c0c88ce7b9},{67,0xb17f2867c7df2},{67,0xb620c2b5bb371},{67,0xc14ddec094801},{67,0xc5c5961c743e3},{67,0xcdea662b36bbf},{67,0xd5db449cd2950},{67,0xdb36734219fde},{67,0xdbffbcb477ddd},{67,0xe262295442d54},{67,0xe35e196497649},{67,0xfa080f11a236b},
{68,0x419183e44b91},{68,0x42cc89cbe956},{68,0x10a2bac862231},{68,0x1f59e1721cb13},{68,0x33f19972247d5},{68,0x36148e7f609b4},{68,0x37d99cc506d58},{68,0x408e20dcc6b93},{68,0x465b896c24520},{68,0x46ffab78c680e},{68,0x4db18c394da51},{68,0x53ffcfee9ec30},{68,0x56bdbafe1b46b},{68,0x5e73048b84ef3},{68,0x621b111dad021},{68,0x65a5303996604},{68,0x6d5d31662bf2d},{68,0x72795a956af8a},{68,0x740e066b1908c},{68,0x7bed58e9f6189},{68,0x83296e0581304},{68,0x834a523b75e3b},{68,0x8cd1dfd4155a3},{68,0x9d338951dc415},{68,0xa437caed555e7},{68,0xa94ead5f77f80},{68,0xb17f2867c7df2},{68,0xb42a73640d943},{68,0xb620c2b5bb371},{68,0xc14ddec094801},{68,0xc5c5961c743e3},{68,0xd5db449cd2950},{68,0xdb36734219fde},{68,0xe710f7e599a5b},{68,0xedf89ca7b101b},{68,0xf5db8c32b02fb},{68,0xfa080f11a236b},{68,0xfbdf9fc0d4a95},
{69,0x419183e44b91},{69,0xcf87d9d22b1c},{69,0xdb618733c475},{69,0x10de692c65fad},{69,0x13e362f5aa379},{69,0x170a84d052c69},{69,0x1811cdb0379e5},{69,0x1f59e1721cb13},{69,0x3e891fb8c7ce7},{69,0x465b896c24520},{69,0x48757c092d09a},{69,0x4db18c394da51},{69,0x53ffcfee9ec30},{69,0x6361bebf0ead1},{69,0x67f862f25b7ce},{69,0x7a5c4a206a26b},{69,0x9d338951dc415},{69,0xa437caed555e7},{69,0xb103518965053},{69,0xb17f2867c7df2},{69,0xb42a73640d943},{69,0xb620c2b5bb371},{69,0xedf89ca7b101b},{69,0xf5db8c32b02fb},{69,0xfbdf9fc0d4a95},
{70,0x2bd4e3a4e1a2},{70,0x419183e44b91},{70,0xdb618733c475},{70,0x13e362f5aa379},{70,0x1811cdb0379e5},{70,0x1f59e1721cb13},{70,0x20fb5054c46c9},{70,0x257e0f213ba1f},{70,0x3bdc85a96fd9a},{70,0x3e891fb8c7ce7},{70,0x416e18911b2d4},{70,0x465b896c24520},{70,0x53ffcfee9ec30},{70,0x6d38dec3e33ac},{70,0x738c42b6211de},{70,0x7cfa52387a746},{70,0x828190bc01e42},{70,0x88dbe52321375},{70,0x8cc140ba64f21},{70,0x8e6d780acc8af},{70,0x9d338951dc415},{70,0xa437caed555e7},{70,0xaebe2d568b0a2},{70,0xb103518965053},{70,0xb17f2867c7df2},{70,0xb42a73640d943},{70,0xb620c2b5bb371},{70,0xc048d15b39d2f},{70,0xc171fa1a61b70},{70,0xc61d35177dcf3},{70,0xd049b1b527416},{70,0xd1118805df4af},{70,0xdf851256c8265},{70,0xdfc8e423b492d},{70,0xe74404f3daada},{70,0xedf89ca7b101b},{70,0xf5db8c32b02fb},{70,0xf89cc397c6193},{70,0xfb1c080437ed9},
{71,0x2bd4e3a4e1a2},{71,0x419183e44b91},{71,0x56fd8a4c15c3},{71,0x20fb5054c46c9},{71,0x23a70c3af5027},{71,0x245c02f8b6683},{71,0x3a023cc3b8681},{71,0x3bdc85a96fd9a},{71,0x416e18911b2d4},{71,0x465b896c24520},{71,0x4c50b17528152},{71,0x62b7e720d3bf0},{71,0x6a98a0db1f5bd},{71,0x738c42b6211de},{71,0x7f9162cae8a20},{71,0x85d003f6488ae},{71,0x88dbe52321375},{71,0x8e6d780acc8af},{71,0xa17101b810149},{71,0xabc8e236e5a5d},{71,0xb17f2867c7df2},{71,0xb42a73640d943},{71,0xb620c2b5bb371},{71,0xb8c73c29acf20},{71,0xc048d15b39d2f},{71,0xc61d35177dcf3},{71,0xd049b1b527416},{71,0xd1118805df4af},{71,0xdf851256c8265},{71,0xe74404f3daada},{71,0xe794b3b55f5a2},{71,0xedf89ca7b101b},{71,0xf5db8c32b02fb},{71,0xfb1c080437ed9},{71,0xfc6c26f899dd1},{71,0xfdbc45ecfbcc8},
{72,0x2bd4e3a4e1a2},{72,0x419183e44b91},{72,0xd25b00d60020},{72,0x2256ed469312f},{72,0x2e3310f186544},{72,0x3a023cc3b8681},{72,0x416e18911b2d4},{72,0x465b896c24520},{72,0x584d09a4c7ef7},{72,0x6a98a0db1f5bd},{72,0x6be8bfcf814b5},{72,0x6fd91caca719b},{72,0x752900f7d6ba2},{72,0x7d876f65d98fa},{72,0x7f9162cae8a20},{72,0x92481cd1815f3},{72,0xa17101b810149},{72,0xa7615afc1d8de},{72,0xabc8e236e5a5d},{72,0xb17f2867c7df2},{72,0xb42a73640d943},{72,0xb620c2b5bb371},{72,0xb8c73c29acf20},{72,0xc048d15b39d2f},{72,0xce6a47428dbbd},{72,0xd3127b28fceb3},{72,0xd84b4d2e53b8a},{72,0xdb99211b097a5},{72,0xdf851256c8265},{72,0xe6bed77f3c940},{72,0xe74404f3daada},{72,0xe794b3b55f5a2},{72,0xedf89ca7b101b},{72,0xf1fd158871420},{72,0xf5db8c32b02fb},{72,0xfc63d0d316bad},{72,0xfc6c26f899dd1},{72,0xffa105333f365},
{73,0x1fb6af5dcf340},{73,0x2256ed469312f},{73,0x29c09cbcc22a0},{73,0x2df0966643889},{73,0x3ae5dc77c2a49},{73,0x465b896c24520},{73,0x584d09a4c7ef7},{73,0x62f6761b867a0},{73,0x64ec106d80d26},{73,0x6fd91caca719b},{73,0x7143ec73378e0},{73,0x7f9162cae8a20},{73,0x808188c7a039e},{73,0x9c2c4f7a4aca0},{73,0xa17101b810149},{73,0xa7615afc1d8de},{73,0xabc8e236e5a5d},{73,0xb0f4d276506e7},{73,0xb17f2867c7df2},{73,0xb2da546faba4b},{73,0xb42a73640d943},{73,0xb8c73c29acf20},{73,0xce6a47428dbbd},{73,0xd3127b28fceb3},{73,0xd52864323bead},{73,0xd84b4d2e53b8a},{73,0xdb99211b097a5},{73,0xdbe82fc28def7},{73,0xdf851256c8265},{73,0xe321f4eb025d2},{73,0xe6bed77f3c940},{73,0xe74404f3daada},{73,0xf564fcb8151b5},{73,0xfc6c26f899dd1},{73,0xfec39b55dc488},{73,0xffa105333f365},
{74,0x7bb8914a0479},{74,0x104680617000c},{74,0x264bd2abde344},{74,0x3ae5dc77c2a49},{74,0x47c7e6053b26e},{74,0x48e78357cd353},{74,0x54a8ffc3d5660},{74,0x584d09a4c7ef7},{74,0x6144839731bde},{74,0x62f6761b867a0},{74,0x64ec106d80d26},{74,0x6d7303b6e4023},{74,0x6db99f3de43e5},{74,0x6fd91caca719b},{74,0x7139bfe9ad310},{74,0x7143ec73378e0},{74,0x786aa79f10180},{74,0x7f9162cae8a20},{74,0x808188c7a039e},{74,0x8dded92299b60},{74,0x9159b88e295f3},{74,0x9c2c4f7a4aca0},{74,0xa17101b810149},{74,0xa5b91ee3d84a0},{74,0xabc8e236e5a5d},{74,0xae5eda569b0a2},{74,0xb17f2867c7df2},{74,0xb2da546faba4b},{74,0xb5276bcfea486},{74,0xbb4cb2f525ffb},{74,0xc63ae04930a66},{74,0xd3127b28fceb3},{74,0xd84b4d2e53b8a},{74,0xe74404f3daada},{74,0xe9aa5d2b4019d},{74,0xea5bba1376cad},{74,0xfc6c26f899dd1},{74,0xfec39b55dc488},{74,0xffa105333f365},
{75,0x5e7c2a978bd5},{75,0x7bb8914a0479},{75,0xf34bc4ae3474},{75,0x1f583ae9b0422},{75,0x2ab344e1e3c19},{75,0x308a831868ac8},{75,0x39f91a7575e96},{75,0x47c7e6053b26e},{75,0x588833f5fc49a},{75,0x623879e2beca7},{75,0x62f6761b867a0},{75,0x64ec106d80d26},{75,0x6a1d31475f040},{75,0x6b12e82b9701b},{75,0x6db99f3de43e5},{75,0x6fd91caca719b},{75,0x7143ec73378e0},{75,0x7448e6c7e1dcb},{75,0x74d74a0923d30},{75,0x786aa79f10180},{75,0x7f9162cae8a20},{75,0x86b81df6c12c0},{75,0x86fc2bd05fc7e},{75,0xa17101b810149},{75,0xa21a067eea81f},{75,0xa44444458635c},{75,0xae5eda569b0a2},{75,0xb17f2867c7df2},{75,0xbb4cb2f525ffb},{75,0xc21c97c6615d3},{75,0xd3127b28fceb3},{75,0xd4911f00a3eb2},{75,0xd84b4d2e53b8a},{75,0xe17c25dd0144e},{75,0xe74404f3daada},{75,0xea5bba1376cad},{75,0xef04156f51d5f},{75,0xfc6c26f899dd1},{75,0xfec39b55dc488},{75,0xffa105333f365},
{76,0x7bb8914a0479},{76,0x18baafb93fb7c},{76,0x1cc242c9faddd},{76,0x2767a300a2f94},{76,0x2ab344e1e3c19},{76,0x303746af85dc8},{76,0x308a831868ac8},{76,0x396738a01ba4a},{76,0x39f91a7575e96},{76,0x50280cfd9bb84},{76,0x623879e2beca7},{76,0x64ec106d80d26},{76,0x6db08edd4b490},{76,0x6db99f3de43e5},{76,0x6fd91caca719b},{76,0x7143ec73378e0},{76,0x74d74a0923d30},{76,0x76a0f8d419f58},{76,0x786aa79f10180},{76,0x7bfe0534fc5d0},{76,0x7ee2e00570566},{76,0x7f9162cae8a20},{76,0x86fc2bd05fc7e},{76,0x8be7440621ad1},{76,0xa21a067eea81f},{76,0xa64a19fb1acaa},{76,0xaa7a2d774b135},{76,0xae5eda569b0a2},{76,0xc39aa2606cc77},{76,0xd3127b28fceb3},{76,0xd4911f00a3eb2},{76,0xe0dece7cd049c},{76,0xe74404f3daada},{76,0xea5bba1376cad},{76,0xef04156f51d5f},{76,0xfc6c26f899dd1},{76,0xfec39b55dc488},{76,0xffa105333f365},
{77,0x7bb8914a0479},{77,0xe2e76a357dc6},{77,0x1c1796f8e16bf},{77,0x1cc242c9faddd},{77,0x29b01b6885d36},{77,0x29e3f080cbcfd},{77,0x2ab344e1e3c19},{77,0x303746af85dc8},{77,0x50280cfd9bb84},{77,0x54582079cc00f},{77,0x6db99f3de43e5},{77,0x7143ec73378e0},{77,0x730d9b3e2db08},{77,0x74d74a0923d30},{77,0x75bc216e9ee44},{77,0x76a0f8d419f58},{77,0x786aa79f10180},{77,0x7a34566a063a8},{77,0x7ee2e00570566},{77,0x844149eeecca9},{77,0x86fc2bd05fc7e},{77,0x99b9df8689f09},{77,0xa2e56f75288e1},{77,0xa64a19fb1acaa},{77,0xae5eda569b0a2},{77,0xc2dfe3931e083},{77,0xd3127b28fceb3},{77,0xd3e1cf8a14dcf},{77,0xd4911f00a3eb2},{77,0xf5cca6e8a1143},{77,0xf83c137c69946},{77,0xfc6c26f899dd1},{77,0xffa105333f365},
{78,0x7bb8914a0479},{78,0xa7932b55b96f},{78,0x1cc242c9faddd},{78,0x2299f916f4501},{78,0x29b01b6885d36},{78,0x2ab344e1e3c19},{78,0x308a831868ac8},{78,0x4bf7f9816b6f9},{78,0x524016bbb3dc9},{78,0x55507c44e46ad},{78,0x65d5f3a314978},{78,0x6c077adf906ec},{78,0x6db99f3de43e5},{78,0x73f272a3a8c1c},{78,0x74d74a0923d30},{78,0x75bc216e9ee44},{78,0x76a0f8d419f58},{78,0x7785d0399506c},{78,0x786aa79f10180},{78,0x7cad23de82d7a},{78,0x7ee2e00570566},{78,0x86fc2bd05fc7e},{78,0x99b9df8689f09},{78,0xa2e56f75288e1},{78,0xa64a19fb1acaa},{78,0xadc6a56881d98},{78,0xae5eda569b0a2},{78,0xaeaa40f37b5c0},{78,0xb1c3231342a94},{78,0xc132b490cd981},{78,0xcf8a8a122057d},{78,0xd3127b28fceb3},{78,0xd3e1cf8a14dcf},{78,0xed7b653a4f9e5},{78,0xf07a62a56cb15},{78,0xf0b639cda5a58},{78,0xfa541d3a81b8b},{78,0xfc6c26f899dd1},
{79,0xa7932b55b96f},{79,0x283b151c00659},{79,0x29b01b6885d36},{79,0x308a831868ac8},{79,0x4adbcb240b211},{79,0x4bf7f9816b6f9},{79,0x524016bbb3dc9},{79,0x56702a37e4254},{79,0x65d5f3a314978},{79,0x6c077adf906ec},{79,0x6db99f3de43e5},{79,0x74d74a0923d30},{79,0x7549b5bbe15ba},{79,0x75bc216e9ee44},{79,0x75f55747fda89},{79,0x762e8d215c6ce},{79,0x76a0f8d419f58},{79,0x77136486d77e2},{79,0x7c45185b6753a},{79,0x7eaf0aed2a59f},{79,0x7ee2e00570566},{79,0x84c97e1998852},{79,0x86fc2bd05fc7e},{79,0x8d332a9b15bc7},{79,0x9a61689c70d0b},{79,0xa432103d02a65},{79,0xa64a19fb1acaa},{79,0xae5eda569b0a2},{79,0xc132b490cd981},{79,0xc9afe90d4a9fb},{79,0xcf8a8a122057d},{79,0xd04f1b9ace41b},{79,0xd71f210e74a3f},{79,0xf07a62a56cb15},{79,0xf0b639cda5a58},{79,0xfa541d3a81b8b},{79,0xfc6c26f899dd1},
{80,0xa7932b55b96f},{80,0xe5abb9b9db45},{80,0x122c8f6d1a97e},{80,0x17cc0ed80691b},{80,0x29b01b6885d36},{80,0x2a531eda1889e},{80,0x2cb997d49f9df},{80,0x417fc8caf2b9d},{80,0x7549b5bbe15ba},{80,0x7582eb95401ff},{80,0x75bc216e9ee44},{80,0x75f55747fda89},{80,0x762e8d215c6ce},{80,0x7667c2fabb313},{80,0x7c1af5dd067c7},{80,0x7c45185b6753a},{80,0x7cdc8d12b47a0},{80,0x7ee2e00570566},{80,0x84c97e1998852},{80,0x86fc2bd05fc7e},{80,0x8d332a9b15bc7},{80,0xa432103d02a65},{80,0xa64a19fb1acaa},{80,0xa9486d3b9f9b7},{80,0xae5eda569b0a2},{80,0xc08c8512c1800},{80,0xcf8a8a122057d},{80,0xd04f1b9ace41b},{80,0xd415a4a25ad96},{80,0xd71f210e74a3f},{80,0xdbd86cd6238d9},{80,0xf0b639cda5a58},{80,0xfc6c26f899dd1},
{81,0xa7932b55b96f},{81,0x1b20c5e0b1506},{81,0x1fdaee239fd43},{81,0x29b01b6885d36},{81,0x417fc8caf2b9d},{81,0x54497db6fb14e},{81,0x6c7f61b46a14e},{81,0x7328cfc5bf924},{81,0x75bc216e9ee44},{81,0x75f55747fda89},{81,0x7c1af5dd067c7},{81,0x7cad23de82d7a},{81,0x7ee2e00570566},{81,0x86fc2bd05fc7e},{81,0xa9486d3b9f9b7},{81,0xae5eda569b0a2},{81,0xba4095ebe8740},{81,0xccff8250c9561},{81,0xcf8a8a122057d},{81,0xd04f1b9ace41b},{81,0xdac74c5146f76},{81,0xdbd86cd6238d9},{81,0xdd1525d95ba88},{81,0xe65da149b40f6},{81,0xfc6c26f899dd1},
{82,0x113be0b376cd0},{82,0x14636a414b32a},{82,0x1b20c5e0b1506},{82,0x1fdaee239fd43},{82,0x27a9c875c9f70},{82,0x29b01b6885d36},{82,0x3ea1adc9839de},{82,0x3efccc8fc0742},{82,0x40f8d54ff639b},{82,0x4d177f62b27cb},{82,0x54497db6fb14e},{82,0x545e121c07428},{82,0x6c7eafe6c9f2f},{82,0x6c7f61b46a14e},{82,0x7328cfc5bf924},{82,0x75bc216e9ee44},{82,0x75f55747fda89},{82,0x86fc2bd05fc7e},{82,0x8e238a8e1cd8a},{82,0x9ea214a8024b1},{82,0xae5eda569b0a2},{82,0xba89467f781ab},{82,0xc547d8c35b5ad},{82,0xccff8250c9561},{82,0xcf8a8a122057d},{82,0xd04f1b9ace41b},{82,0xdb565e7241288},{82,0xdbd86cd6238d9},{82,0xdd1525d95ba88},{82,0xe65da149b40f6},{82,0xfc6c26f899dd1},
{83,0x6c91eebc31f4},{83,0x113be0b376cd0},{83,0x14636a414b32a},{83,0x1870dabad265e},{83,0x1b20c5e0b1506},{83,0x1d75fe0dfe503},{83,0x1f09c2d4e8830},{83,0x27a9c875c9f70},{83,0x29b01b6885d36},{83,0x345673fc2323c},{83,0x355a61b18b70c},{83,0x3efccc8fc0742},{83,0x40f8d54ff639b},{83,0x43d013ca8db2a},{83,0x4d177f62b27cb},{83,0x56b7b348613dd},{83,0x5752fa2314df7},{83,0x61bef61fd424b},{83,0x67c34ee8184b5},{83,0x6c7eafe6c9f2f},{83,0x8e238a8e1cd8a},{83,0x9477f61c6b052},{83,0x9ea214a8024b1},{83,0xba89467f781ab},{83,0xc547d8c35b5ad},{83,0xcf8a8a122057d},{83,0xd04f1b9ace41b},{83,0xd3409dfbca26f},{83,0xdb565e7241288},{83,0xdbd86cd6238d9},{83,0xe64e8f2af598c},{83,0xfc6c26f899dd1},{83,0xfca8b3fe143e8},
{84,0x6c91eebc31f4},{84,0xa5b7a95b437a},{84,0x13b5870a388b1},{84,0x1b20c5e0b1506},{84,0x1f09c2d4e8830},{84,0x245cef1eb72b3},{84,0x27a9c875c9f70},{84,0x29b01b6885d36},{84,0x2f0347b2547b9},{84,0x345673fc2323c},{84,0x47167e14b8a51},{84,0x61bef61fd424b},{84,0x64e251a09aaa3},{84,0x67c34ee8184b5},{84,0x6c7eafe6c9f2f},{84,0x768044100f540},{84,0x92293e39ef1ac},{84,0x9d5650a37e6da},{84,0xa49afaa1e3e7c},{84,0xba89467f781ab},{84,0xc547d8c35b5ad},{84,0xcf8a8a122057d},{84,0xd2e9525ee48ff},{84,0xd30768226b62a},{84,0xd3409dfbca26f},{84,0xd379d3d528eb4},{84,0xd3b309ae87af9},{84,0xdbc4a76ca7db0},{84,0xdbd86cd6238d9},{84,0xe64e8f2af598c},{84,0xe68d4b71ff3ba},{84,0xfc6c26f899dd1},{84,0xfca8b3fe143e8},
{85,0x1016e212fe42},{85,0x6c91eebc31f4},{85,0x10f4f2663a37d},{85,0x14685db371488},{85,0x1b20c5e0b1506},{85,0x1c7cb60c3aa42},{85,0x245cef1eb72b3},{85,0x29b01b6885d36},{85,0x2f0347b2547b9},{85,0x401a1b78813f0},{85,0x4724cad338715},{85,0x61bef61fd424b},{85,0x6c7eafe6c9f2f},{85,0x768044100f540},{85,0x80d708a958460},{85,0x82ba616a96d73},{85,0x8e85418cf0f9c},{85,0x98e3445512a6e},{85,0x9d5650a37e6da},{85,0xaf158e8c3700e},{85,0xc1d26fe73a033},{85,0xc547d8c35b5ad},{85,0xd22290bcf0516},{85,0xd2e9525ee48ff},{85,0xd3409dfbca26f},{85,0xd379d3d528eb4},{85,0xd45eab3aa3fc8},{85,0xdbc4a76ca7db0},{85,0xdbd86cd6238d9},{85,0xf1ac6d31a40ec},
{86,0x1016e212fe42},{86,0x6c91eebc31f4},{86,0x1b20c5e0b1506},{86,0x1c7cb60c3aa42},{86,0x29b01b6885d36},{86,0x3b13a9e9a2b69},{86,0x4724cad338715},{86,0x4dfbe74504cb3},{86,0x5ce98357dc88e},{86,0x5d2f2b38e9324},{86,0x5e85eaae5b26d},{86,0x61bef61fd424b},{86,0x82b0fa1dee4cf},{86,0x886a42560592c},{86,0x8e85418cf0f9c},{86,0x98e3445512a6e},{86,0x9d5650a37e6da},{86,0xaf158e8c3700e},{86,0xbfdcf42f3c672},{86,0xc1d26fe73a033},{86,0xc547d8c35b5ad},{86,0xcdaa5bc188fb2},{86,0xd3409dfbca26f},{86,0xd8d6e0360b52c},{86,0xdb7a22fa7fb4d},{86,0xdbc4a76ca7db0},{86,0xdbd86cd6238d9},{86,0xe8dba2e946799},{86,0xebf324f98cc8f},{86,0xf1ac6d31a40ec},{86,0xfe50809fd399b},
{87,0x3ef5bb464346},{87,0x424e536d82e7},{87,0x6c91eebc31f4},{87,0x1b20c5e0b1506},{87,0x1c7cb60c3aa42},{87,0x21f7e2527daa4},{87,0x29b01b6885d36},{87,0x4724cad338715},{87,0x4cf2593b21458},{87,0x5ce98357dc88e},{87,0x5d2f2b38e9324},{87,0x5e4cb4d4fc628},{87,0x5e85eaae5b26d},{87,0x61bef61fd424b},{87,0x74c687cbe11d4},{87,0x87a2b98306e8c},{87,0x917e9bd4adff7},{87,0x98e3445512a6e},{87,0x9d5650a37e6da},{87,0xa6d90d8cb076d},{87,0xaf158e8c3700e},{87,0xb3b22a0dabc0d},{87,0xb639713afa361},{87,0xb75152d8844be},{87,0xc547d8c35b5ad},{87,0xd3409dfbca26f},{87,0xdb7a22fa7fb4d},{87,0xdbd86cd6238d9},{87,0xddc31def20526},{87,0xe208d68d0af59},{87,0xe8dba2e946799},{87,0xe9f8d9aae5689},{87,0xebf324f98cc8f},{87,0xef2fe91f10020},{87,0xf5842f54d98a7},
{88,0x3ef5bb464346},{88,0x424e536d82e7},{88,0x6dd494798849},{88,0x1b20c5e0b1506},{88,0x1c7cb60c3aa42},{88,0x21f7e2527daa4},{88,0x29b01b6885d36},{88,0x29e7d1415ce51},{88,0x3cb31cb20b968},{88,0x43502ae92940a},{88,0x4724cad338715},{88,0x4cce5004f40fb},{88,0x598275204d9aa},{88,0x5ce98357dc88e},{88,0x5d2f2b38e9324},{88,0x5e4cb4d4fc628},{88,0x6088cf52b00da},{88,0x6383716eb2bab},{88,0x6c51b353f3386},{88,0x6f735b8212751},{88,0x72eacec819f63},{88,0x74c687cbe11d4},{88,0x7a19b415afc57},{88,0x7d1fe9fdad7b4},{88,0x98e3445512a6e},{88,0x9bfa6077f519e},{88,0x9d5650a37e6da},{88,0xaf158e8c3700e},{88,0xb3b22a0dabc0d},{88,0xc547d8c35b5ad},{88,0xd1eda33a227c6},{88,0xd3409dfbca26f},{88,0xe9f8d9aae5689},{88,0xef2fe91f10020},{88,0xf5842f54d98a7},
{89,0x3ef5bb464346},{89,0x424e536d82e7},{89,0x6dd494798849},{89,0x16eb967ae08cb},{89,0x18869e33348d8},{89,0x1a83127b9f52d},{89,0x21f7e2527daa4},{89,0x2461c6e1026b1},{89,0x2c97e95f231d5},{89,0x3cb31cb20b968},{89,0x4724cad338715},{89,0x4cce5004f40fb},{89,0x5af28d186ee1d},{89,0x5ce98357dc88e},{89,0x5d2f2b38e9324},{89,0x6383716eb2bab},{89,0x64cd02ee7524b},{89,0x6d04b6aac5021},{89,0x74c687cbe11d4},{89,0x7f6ce05f7e6da},{89,0x844c01d6424dc},{89,0x85e7098e964e9},{89,0x976b9348ff82a},{89,0x98e3445512a6e},{89,0x9a0cbdd087b69},{89,0xc547d8c35b5ad},{89,0xced581dc4894b},{89,0xcff8f9232be58},{89,0xd3409dfbca26f},{89,0xe9f8d9aae5689},{89,0xef2fe91f10020},{89,0xf0116579500df},{89,0xf5842f54d98a7},
{90,0x3ef5bb464346},{90,0x424e536d82e7},{90,0x6dd494798849},{90,0x18869e33348d8},{90,0x1a83127b9f52d},{90,0x1ecb84a6c13f4},{90,0x20d758b168db4},{90,0x21f7e2527daa4},{90,0x2461c6e1026b1},{90,0x2deb648e2ee71},{90,0x2f8d480c6292d},{90,0x3cb31cb20b968},{90,0x3f0341f52906c},{90,0x44eb32a17d417},{90,0x4724cad338715},{90,0x4cce5004f40fb},{90,0x57e76d67f999d},{90,0x5af28d186ee1d},{90,0x5ce98357dc88e},{90,0x5d2f2b38e9324},{90,0x64cd02ee7524b},{90,0x6d0ef3a1b155c},{90,0x74c687cbe11d4},{90,0x7bd1326e66490},{90,0x7cd48a45d8dc7},{90,0x7f6ce05f7e6da},{90,0x844c01d6424dc},{90,0x9719958a1c846},{90,0x98e3445512a6e},{90,0xb4ac9b4190ff8},{90,0xced581dc4894b},{90,0xcff8f9232be58},{90,0xd3409dfbca26f},{90,0xd9df1b422bb40},{90,0xdaac9f1e55b46},{90,0xdc672dc396fea},{90,0xe9f8d9aae5689},{90,0xef2fe91f10020},{90,0xf0116579500df},{90,0xf5842f54d98a7},
{91,0x6dd494798849},{91,0xeedbde0f904a},{91,0x16d0cfc578d4f},{91,0x2deb648e2ee71},{91,0x2f8d480c6292d},{91,0x3b572c868242c},{91,0x3f0341f52906c},{91,0x407cb7be58857},{91,0x44eb32a17d417},{91,0x48e8d86dd0acb},{91,0x4cce5004f40fb},{91,0x6d0ef3a1b155c},{91,0x6ee73b7b47f43},{91,0x7bd1326e66490},{91,0x7cd48a45d8dc7},{91,0x9719958a1c846},{91,0x98e3445512a6e},{91,0xa25fc07786816},{91,0xafe3126861014},{91,0xb4ac9b4190ff8},{91,0xb92c5ccd59337},{91,0xced581dc4894b},{91,0xcff8f9232be58},{91,0xd0b15a491eb84},{91,0xd3409dfbca26f},{91,0xd54c256cfa8db},{91,0xdaa1bd6224a09},{91,0xdc672dc396fea},{91,0xe9f8d9aae5689},{91,0xecdb5608a80c5},{91,0xef2eab32b3f94},{91,0xef2fe91f10020},{91,0xf5842f54d98a7},{91,0xff49de859c727},
{92,0x6dd494798849},{92,0x9c0ced7fbcf9},{92,0x16bd9553274d6},{92,0x16d0cfc578d4f},{92,0x19dc022ae448c},{92,0x1aef29c7b28ec},{92,0x29f7357dccc1f},{92,0x2deb648e2ee71},{92,0x3a1268d0b53b2},{92,0x3f0341f52906c},{92,0x44eb32a17d417},{92,0x4548f266624dc},{92,0x472d4f203bb92},{92,0x4cce5004f40fb},{92,0x4e193697091c8},{92,0x567a84551f16a},{92,0x65d03dd705bbf},{92,0x6ee73b7b47f43},{92,0x7bd1326e66490},{92,0x8afd2657c0830},{92,0x9719958a1c846},{92,0x98e3445512a6e},{92,0x9b0073899907f},{92,0xa25fc07786816},{92,0xa4632b5eb9d41},{92,0xa60c174548411},{92,0xb02a0ed87b4a1},{92,0xb92c5ccd59337},{92,0xc2df4d2edd59a},{92,0xc324bf5496433},{92,0xced581dc4894b},{92,0xcff8f9232be58},{92,0xd0b15a491eb84},{92,0xd3409dfbca26f},{92,0xd6f12daef763c},{92,0xd7584611195ef},{92,0xe55f024bd2e13},{92,0xecdb5608a80c5},{92,0xefec02de03d6a},{92,0xf5842f54d98a7},{92,0xff297cea08311},
{93,0x16bd9553274d6},{93,0x19dc022ae448c},{93,0x2250ce7a9859f},{93,0x2deb648e2ee71},{93,0x3f0341f52906c},{93,0x44eb32a17d417},{93,0x468e3c461911a},{93,0x472d4f203bb92},{93,0x567a84551f16a},{93,0x56eb956ea1e8e},{93,0x65d03dd705bbf},{93,0x695e63ee8418f},{93,0x6a6402c96ea6b},{93,0x6ee73b7b47f43},{93,0x796d33a51e286},{93,0x8afd2657c0830},{93,0x95f0e3f25fc7e},{93,0x9719958a1c846},{93,0x98e3445512a6e},{93,0xa60c174548411},{93,0xaa231ee38d6ab},{93,0xb6274a9830ba4},{93,0xb92c5ccd59337},{93,0xbaec0367f904a},{93,0xced581dc4894b},{93,0xd3409dfbca26f},{93,0xe55f024bd2e13},{93,0xe66e3ab2f974b},{93,0xf5842f54d98a7},{93,0xfc5ed05f213b9},{93,0xff297cea08311},
{94,0x11ed943e29274},{94,0x16bd9553274d6},{94,0x19dc022ae448c},{94,0x2250ce7a9859f},{94,0x282b71095b508},{94,0x2ce379d1e7bb2},{94,0x391d6ad06b0c0},{94,0x3f0341f52906c},{94,0x42c8bf1da10c3},{94,0x546eacf7f670b},{94,0x56eb956ea1e8e},{94,0x5c8503b6d70a3},{94,0x634d17bfdd136},{94,0x6a6402c96ea6b},{94,0x6dbe95a3f8c6b},{94,0x6ee73b7b47f43},{94,0x796d33a51e286},{94,0x80eccb8e167ef},{94,0x895fc9fe9977b},{94,0x8afd2657c0830},{94,0x9719958a1c846},{94,0xa60c174548411},{94,0xb5a305ed3497e},{94,0xb92c5ccd59337},{94,0xbaec0367f904a},{94,0xd0b15a491eb84},{94,0xd3409dfbca26f},{94,0xd74795a5971fe},{94,0xdf9f0ec6ff4a9},{94,0xe916d2dd994ae},{94,0xfd0f29a5c9955},
{95,0x11ed943e29274},{95,0x16bd9553274d6},{95,0x19dc022ae448c},{95,0x1cfda230c9b1c},{95,0x226ed86db3332},{95,0x36d49560e49b2},{95,0x391d6ad06b0c0},{95,0x3e8c77de533ff},{95,0x42c8bf1da10c3},{95,0x45ad63f1a3a7d},{95,0x46e01567c3420},{95,0x4b89564251a25},{95,0x56eb956ea1e8e},{95,0x61aaf4399f327},{95,0x6a6402c96ea6b},{95,0x6ee73b7b47f43},{95,0x7702957c5f36a},{95,0x7b2197f73da3b},{95,0x7c2382bcf0b5f},{95,0x8afd2657c0830},{95,0x93757938a8fd1},{95,0x9719958a1c846},{95,0xa60c174548411},{95,0xaa2e6e3a2a07a},{95,0xab3c6bdb1d611},{95,0xb92c5ccd59337},{95,0xbaec0367f904a},{95,0xc73c411d29e09},{95,0xd0b15a491eb84},{95,0xd3409dfbca26f},{95,0xd9cbe6f8c2c1a},{95,0xdee340620969d},{95,0xdf9f0ec6ff4a9},
{96,0x17e79ffface3},{96,0x563c2c92147a},{96,0x19dc022ae448c},{96,0x223accc1cbc74},{96,0x26c9155a05f44},{96,0x36c3679419580},{96,0x36d49560e49b2},{96,0x3e8c77de533ff},{96,0x40255cf853629},{96,0x45ad63f1a3a7d},{96,0x46e01567c3420},{96,0x4b89564251a25},{96,0x4ee5d56b32957},{96,0x56eb956ea1e8e},{96,0x66f71575808fc},{96,0x684917da73935},{96,0x6ee73b7b47f43},{96,0x724c4791cdc08},{96,0x75855f1c1c551},{96,0x7702957c5f36a},{96,0x7990195b68f5b},{96,0x8afd2657c0830},{96,0xa60c174548411},{96,0xa99c8d4ef0750},{96,0xb8f217bd9ec85},{96,0xb92c5ccd59337},{96,0xc73c411d29e09},{96,0xcc07ce97b14ea},{96,0xd3409dfbca26f},{96,0xd9cbe6f8c2c1a},{96,0xdee340620969d},{96,0xed5550066c4fd},{96,0xf1beb22c61850},{96,0xfd70835954c90},
{97,0x17e79ffface3},{97,0x563c2c92147a},{97,0xac96b966adc5},{97,0xacca82ad8bf6},{97,0xe8ee8bee2e1c},{97,0x2683e82126384},{97,0x26c9155a05f44},{97,0x3eda556453ee9},{97,0x40255cf853629},{97,0x46e01567c3420},{97,0x4ee5d56b32957},{97,0x56eb956ea1e8e},{97,0x5ae323d9a0ab8},{97,0x5ef15572113c5},{97,0x60e046f5eced8},{97,0x66349d7dfae77},{97,0x6b9829aaddc3c},{97,0x6c7bb56f28865},{97,0x6ee73b7b47f43},{97,0x72364d4bb224a},{97,0x7702957c5f36a},{97,0x7990195b68f5b},{97,0x8afd2657c0830},{97,0xa4fb8ce9c31c3},{97,0xa60c174548411},{97,0xb8f217bd9ec85},{97,0xb92c5ccd59337},{97,0xbd03b60db2e44},{97,0xbf1b68b36cc3e},{97,0xc73c159eb8790},{97,0xd3409dfbca26f},{97,0xd408632caf802},{97,0xd9cbe6f8c2c1a},{97,0xddf785deca326},{97,0xdf36e51b67ae0},{97,0xf1beb22c61850},{97,0xfd70835954c90},
{98,0x703ee6df2d6e},{98,0xac96b966adc5},{98,0xacca82ad8bf6},{98,0xca6883245c28},{98,0xd4dd248890b0},{98,0x17c44f852a692},{98,0x19df60384af21},{98,0x1ae7db7dc1389},{98,0x1e5fa3ef1dc31},{98,0x1fc1a5ad71d46},{98,0x226ed86db3332},{98,0x26c9155a05f44},{98,0x2d95b71cba818},{98,0x46e01567c3420},{98,0x4ee5d56b32957},{98,0x5ae323d9a0ab8},{98,0x60e046f5eced8},{98,0x6b0a8e891ffff},{98,0x6ee73b7b47f43},{98,0x708ec4637d0c6},{98,0x75eeb6a6d6b84},{98,0x7702957c5f36a},{98,0x83b0cf0abea19},{98,0x841e95c216c43},{98,0x93023f3ffa4e9},{98,0x9f1f558d8bd7d},{98,0xb92c5ccd59337},{98,0xbd03b60db2e44},{98,0xbf1b68b36cc3e},{98,0xd408632caf802},{98,0xd9cbe6f8c2c1a},{98,0xdf36e51b67ae0},{98,0xe79ff8680b6ec},{98,0xfc41fabff9998},
{99,0x703ee6df2d6e},{99,0xacca82ad8bf6},{99,0xca6883245c28},{99,0xd4dd248890b0},{99,0xd7cc76a82f35},{99,0x1401311090834},{99,0x1ae7db7dc1389},{99,0x26c9155a05f44},{99,0x4ee5d56b32957},{99,0x5271b5975343a},{99,0x6b0a8e891ffff},{99,0x6b677ece61d2e},{99,0x6b6fdc1c4b968},{99,0x6ee73b7b47f43},{99,0x708ec4637d0c6},{99,0x70ab1aba9c459},{99,0x75eeb6a6d6b84},{99,0x7702957c5f36a},{99,0x83b0cf0abea19},{99,0x8f3cc21782492},{99,0x9439c914ff3d6},{99,0xb92c5ccd59337},{99,0xc8d526372a033},{99,0xcb74cece347d5},{99,0xd7f41fb243332},{99,0xe79ff8680b6ec},{99,0xf457501ff00b5},
{100,0x703ee6df2d6e},{100,0x1047eae6d7fff},{100,0x1401311090834},{100,0x1ae7db7dc1389},{100,0x2f428073b892d},{100,0x3ec35b39ff514},{100,0x414a9f6c8e3d6},{100,0x41743645ec3bb},{100,0x4b205842ba900},{100,0x4ee5d56b32957},{100,0x6b677ece61d2e},{100,0x6b6fdc1c4b968},{100,0x70ab1aba9c459},{100,0x75eeb6a6d6b84},{100,0x7d317c0ffb332},{100,0x83b0cf0abea19},{100,0x8f3cc21782492},{100,0x9439c914ff3d6},{100,0x9e01c998d8c4e},{100,0xa19e92c591506},{100,0xb4f3a5ac327f8},{100,0xb9e02a151c14d},{100,0xc67e34159534b},{100,0xc825bcfdca4ce},{100,0xc89e42db7df1e},{100,0xc9cd45e5ff652},{100,0xcb74cece347d5},{100,0xcd1c57b669959},{100,0xcec3e09e9eadc},{100,0xd06b6986d3c60},{100,0xd3592bec4a024},{100,0xeb306e71b3a2b},{100,0xec51901c80b7e},{100,0xf457501ff00b5},
{101,0x50b5928358b7},{101,0x1047eae6d7fff},{101,0x218696bc4b8e4},{101,0x2f428073b892d},{101,0x2f4cd1fa1b0c0},{101,0x3da93cb7fbfff},{101,0x3ec35b39ff514},{101,0x4ee5d56b32957},{101,0x5b9cab09b27ad},{101,0x61c34d878d24b},{101,0x6b0a8e891ffff},{101,0x6b6fdc1c4b968},{101,0x70ab1aba9c459},{101,0x75eeb6a6d6b84},{101,0x83b0cf0abea19},{101,0x9439c914ff3d6},{101,0x9545a267dc2d3},{101,0xaa92cde11f332},{101,0xb14af701e625b},{101,0xb44b521b4d2a4},{101,0xb9e02a151c14d},{101,0xbc90fea456a36},{101,0xc434d00b5416b},{101,0xc4d6ab2d601c7},{101,0xc5cd322b67fff},{101,0xc89e42db7df1e},{101,0xc9cd45e5ff652},{101,0xcb74cece347d5},{101,0xcd1c57b669959},{101,0xd3592bec4a024},{101,0xd562043f730ea},{101,0xdda7b0c87c87c},{101,0xe5ed5d518600d},{101,0xe6349db6a21d7},{101,0xe8ed00580878c},{101,0xec51901c80b7e},{101,0xf56760d6added},{101,0xfc5e128ef8727},
{102,0x50b5928358b7},{102,0x1047eae6d7fff},{102,0x143e581b21d4d},{102,0x1a26eccdf70f2},{102,0x26f893cf69fff},{102,0x2f4cd1fa1b0c0},{102,0x31e859f5c8f2a},{102,0x3da93cb7fbfff},{102,0x4d5e570b33514},{102,0x4ee5d56b32957},{102,0x5759f46c7f8bd},{102,0x59017d54b4a41},{102,0x619294c0ee6f5},{102,0x6b0a8e891ffff},{102,0x6d2e8d2d1e6c9},{102,0x70ab1aba9c459},{102,0x75eeb6a6d6b84},{102,0x83b0cf0abea19},{102,0x898d52bb43561},{102,0x9545a267dc2d3},{102,0xa792e63e7c210},{102,0xaa92cde11f332},{102,0xb44b521b4d2a4},{102,0xb7a78219e5337},{102,0xc434d00b5416b},{102,0xc4d6ab2d601c7},{102,0xcb74cece347d5},{102,0xcd1c57b669959},{102,0xcefdd17478579},{102,0xd562043f730ea},{102,0xe6349db6a21d7},{102,0xea6d54d7c8d16},{102,0xec51901c80b7e},{102,0xee309c4442eb7},{102,0xf56760d6added},
{103,0x50b5928358b7},{103,0xed9d7668fb46},{103,0x1047eae6d7fff},{103,0x113b4ce902c6c},{103,0x143e581b21d4d},{103,0x183037116da15},{103,0x1a26eccdf70f2},{103,0x1ef41023da2b5},{103,0x26f893cf69fff},{103,0x2f4cd1fa1b0c0},{103,0x319216c32a352},{103,0x3250e843b2fff},{103,0x364c8d0585b16},{103,0x3da93cb7fbfff},{103,0x3e559482a72ea},{103,0x4ee5d56b32957},{103,0x5459e5a08dfff},{103,0x55b26b844a73a},{103,0x59017d54b4a41},{103,0x5df8180d53ecb},{103,0x6c3994133af5c},{103,0x6d2e8d2d1e6c9},{103,0x70ab1aba9c459},{103,0x75eeb6a6d6b84},{103,0x83b0cf0abea19},{103,0x898d52bb43561},{103,0x9545a267dc2d3},{103,0xa792e63e7c210},{103,0xaa92cde11f332},{103,0xb44b521b4d2a4},{103,0xc4d6ab2d601c7},{103,0xcb74cece347d5},{103,0xcc2d6debbc08a},{103,0xcd1c57b669959},{103,0xd551c132074db},{103,0xe2999c63113ad},{103,0xe6349db6a21d7},{103,0xea6d54d7c8d16},{103,0xee309c4442eb7},
{104,0xed9d7668fb46},{104,0x113b4ce902c6c},{104,0x143e581b21d4d},{104,0x1528c7897c828},{104,0x1a26eccdf70f2},{104,0x1ba03f5b20fff},{104,0x224321f4445bc},{104,0x238890bfa2ba9},{104,0x26f893cf69fff},{104,0x2ca4be098e7ff},{104,0x30ab84e85c942},{104,0x319216c32a352},{104,0x3250e843b2fff},{104,0x364c8d0585b16},{104,0x36d1333e611d5},{104,0x3ce165e92e085},{104,0x3da93cb7fbfff},{104,0x3e559482a72ea},{104,0x4ee5d56b32957},{104,0x5459e5a08dfff},{104,0x55b26b844a73a},{104,0x5c671993bf73e},{104,0x5f14609eb65f7},{104,0x635fc9a607936},{104,0x663dc4965d65d},{104,0x6c3994133af5c},{104,0x6d2e8d2d1e6c9},{104,0x70ab1aba9c459},{104,0x8d6aad26e8b5b},{104,0x9167619d5a049},{104,0x95ff0640c2c2a},{104,0xa4e6a3a6fab32},{104,0xa6e111634bb66},{104,0xa9b19571e0450},{104,0xb44b521b4d2a4},{104,0xbda1b1c62b173},{104,0xc5cd322b67fff},{104,0xcc2d6debbc08a},{104,0xcd1c57b669959},{104,0xdda7b0c87c87c},{104,0xe0716f1298da5},{104,0xe6349db6a21d7},{104,0xea6d54d7c8d16},{104,0xee309c4442eb7},{104,0xf812a987a73e8},{104,0xfdadafcacdf84},{104,0xff88e87d8a551},
{105,0x7d8b597f2ee1},{105,0x143e581b21d4d},{105,0x1528c7897c828},{105,0x1a26eccdf70f2},{105,0x1ba03f5b20fff},{105,0x214c6995457ff},{105,0x238890bfa2ba9},{105,0x26f893cf69fff},{105,0x2a88ce7d4dd4d},{105,0x2ca4be098e7ff},{105,0x30ab84e85c942},{105,0x3250e843b2fff},{105,0x364c8d0585b16},{105,0x36d1333e611d5},{105,0x37fd127dd77ff},{105,0x3bfac6bc4767b},{105,0x3e559482a72ea},{105,0x4a19d5bd1f801},{105,0x4ee5d56b32957},{105,0x5459e5a08dfff},{105,0x5812f9875ce8e},{105,0x5ac8f797652b8},{105,0x663dc4965d65d},{105,0x6d2e8d2d1e6c9},{105,0x8643c398aed65},{105,0x8d138be5fafff},{105,0x9167619d5a049},{105,0xa1f2baaf6cf6c},{105,0xa22e74f54f2fc},{105,0xa4e6a3a6fab32},{105,0xa6e111634bb66},{105,0xa9b19571e0450},{105,0xbdcda4b595d09},{105,0xcd1c57b669959},{105,0xdda7b0c87c87c},{105,0xe6d3fc7e6ca18},{105,0xea6d54d7c8d16},{105,0xf2beb2e938ce2},{105,0xfdadafcacdf84},{105,0xff88e87d8a551},
{106,0x62bc78f69143},{106,0xc241e9f44220},{106,0x143e581b21d4d},{106,0x1ba03f5b20fff},{106,0x26f893cf69fff},{106,0x29cea8ec7c3ff},{106,0x2a88ce7d4dd4d},{106,0x2ca4be098e7ff},{106,0x2f7ad326a0bff},{106,0x3250e843b2fff},{106,0x33b51a333dee9},{106,0x364c8d0585b16},{106,0x36d1333e611d5},{106,0x37fd127dd77ff},{106,0x391cf32aa9fc0},{106,0x3bfac6bc4767b},{106,0x4ee5d56b32957},{106,0x5459e5a08dfff},{106,0x5812f9875ce8e},{106,0x5ac8f797652b8},{106,0x6d2e8d2d1e6c9},{106,0x6e96cf3468b3e},{106,0x6f6a104c4d7f9},{106,0x704204bbfb2f3},{106,0x848b8f39587ea},{106,0x9167619d5a049},{106,0xa1f2baaf6cf6c},{106,0xa59c28ee3f432},{106,0xa6e111634bb66},{106,0xa9b19571e0450},{106,0xab1f06655d108},{106,0xb137377ddb526},{106,0xbdcda4b595d09},{106,0xbee6ddb41c38b},{106,0xc306327abd37a},{106,0xc5d6be03add74},{106,0xd9f82a1a6b1b8},{106,0xdf2b53922eb8e},{106,0xe6d3fc7e6ca18},{106,0xfdadafcacdf84},{106,0xff88e87d8a551},
{107,0x23b10ec8184d},{107,0x62bc78f69143},{107,0xc241e9f44220},{107,0xc692449532e1},{107,0xd71d5c9c5bff},{107,0x1ba03f5b20fff},{107,0x219d2bc3da25b},{107,0x29cea8ec7c3ff},{107,0x2a88ce7d4dd4d},{107,0x2b39b37b055ff},{107,0x2ca4be098e7ff},{107,0x2d5a4350d30ff},{107,0x2e0fc898179ff},{107,0x2f1ef45845e1b},{107,0x2f7ad326a0bff},{107,0x33768b1b54a6c},{107,0x36d1333e611d5},{107,0x37fd127dd77ff},{107,0x391cf32aa9fc0},{107,0x462b7c0f32bff},{107,0x4897f65903727},{107,0x5d62783bdde2d},{107,0x663dc4965d65d},{107,0x6ad3ea715572b},{107,0x6d2e8d2d1e6c9},{107,0x6e96cf3468b3e},{107,0x704204bbfb2f3},{107,0x7708ffe40fd5c},{107,0x8abbf04bda352},{107,0xa1f2baaf6cf6c},{107,0xa2a6d567718e7},{107,0xa59c28ee3f432},{107,0xa6e111634bb66},{107,0xa9705f08b17ff},{107,0xab1f06655d108},{107,0xb4f3a1ef04770},{107,0xbee6ddb41c38b},{107,0xc306327abd37a},{107,0xd822096dbb545},{107,0xd950a8dce937a},{107,0xdb9f4672e941a},{107,0xdda7b0c87c87c},{107,0xdf2b53922eb8e},{107,0xe6394a302cbd7},{107,0xe6d3fc7e6ca18},{107,0xfb5074a9a03a2},{107,0xfdadafcacdf84},
{108,0x23b10ec8184d},{108,0x62bc78f69143},{108,0x1ba03f5b20fff},{108,0x1fcd54dd4c646},{108,0x219d2bc3da25b},{108,0x22b77423ce9ff},{108,0x29a1effc50859},{108,0x29cea8ec7c3ff},{108,0x2a88ce7d4dd4d},{108,0x2bef38c249eff},{108,0x2ca4be098e7ff},{108,0x2d2ce1ff01ebf},{108,0x2d5a4350d30ff},{108,0x2e0fc898179ff},{108,0x2ec54ddf5c2ff},{108,0x2f1ef45845e1b},{108,0x30e5ddb529dff},{108,0x33768b1b54a6c},{108,0x36d1333e611d5},{108,0x37b4cf0ccff8b},{108,0x37fd127dd77ff},{108,0x4897f65903727},{108,0x5271ae1cf732a},{108,0x62884f31e93ff},{108,0x663dc4965d65d},{108,0x6d1efd5ed1792},{108,0x6d2e8d2d1e6c9},{108,0x704204bbfb2f3},{108,0x7708ffe40fd5c},{108,0x8abbf04bda352},{108,0x979471380bb3f},{108,0x98ce80d792f5c},{108,0xa1f2baaf6cf6c},{108,0xa2a84b4d6ce07},{108,0xa59c28ee3f432},{108,0xa6e111634bb66},{108,0xa8d3f377e10a1},{108,0xa9705f08b17ff},{108,0xb38b7299a05a3},{108,0xb4f3a1ef04770},{108,0xbee6ddb41c38b},{108,0xc306327abd37a},{108,0xd118c30675f84},{108,0xd822096dbb545},{108,0xdb9f4672e941a},{108,0xdda7b0c87c87c},{108,0xdf2b53922eb8e},{108,0xe6394a302cbd7},{108,0xe6d3fc7e6ca18},{108,0xeb7f2c53db97f},{108,0xf00de54f30dea},{108,0xf0d34ded70394},{108,0xf9e2806e34ffd},{108,0xfdadafcacdf84},
{109,0x62bc78f69143},{109,0xc14db625b6f8},{109,0x1ba03f5b20fff},{109,0x1cf7effca8bec},{109,0x219d2bc3da25b},{109,0x26430e88256ff},{109,0x29a1effc50859},{109,0x29cea8ec7c3ff},{109,0x2a88ce7d4dd4d},{109,0x2ca4be098e7ff},{109,0x2cff80ad30c7f},{109,0x2d2ce1ff01ebf},{109,0x2d5a4350d30ff},{109,0x2db505f47557f},{109,0x30447dcf03e4f},{109,0x30e5ddb529dff},{109,0x3471781980aff},{109,0x36d1333e611d5},{109,0x37b4cf0ccff8b},{109,0x3f144746851ff},{109,0x4547ad1d6fe76},{109,0x5271ae1cf732a},{109,0x611458e224f5c},{109,0x62884f31e93ff},{109,0x6d1efd5ed1792},{109,0x6d2e8d2d1e6c9},{109,0x71b52339c9860},{109,0x87eb6c3d45a68},{109,0x8b03fd6894b66},{109,0x98ce80d792f5c},{109,0x9c033003545ac},{109,0x9fd7c91d6f561},{109,0xa59c28ee3f432},{109,0xa6e111634bb66},{109,0xa8d3f377e10a1},{109,0xab3da77613f65},{109,0xad6a1952d916f},{109,0xadea59a92816b},{109,0xb38b7299a05a3},{109,0xb4f3a1ef04770},{109,0xbbfcea34e0d75},{109,0xbee6ddb41c38b},{109,0xc306327abd37a},{109,0xca0f7ac09997f},{109,0xd29013f2247b1},{109,0xdf2b53922eb8e},{109,0xe5ae7307ae9e4},{109,0xe6394a302cbd7},{109,0xe91f0f6be8a7f},{109,0xf00de54f30dea},{109,0xf9e2806e34ffd},
{110,0x1cf208c0fb24},{110,0x9e63b656eeff},{110,0x1ba03f5b20fff},{110,0x219d2bc3da25b},{110,0x29a1effc50859},{110,0x29cea8ec7c3ff},{110,0x2a88ce7d4dd4d},{110,0x2b94761ea7a7f},{110,0x2cd21f5b5fa3f},{110,0x2cff80ad30c7f},{110,0x2d2ce1ff01ebf},{110,0x2d5a4350d30ff},{110,0x2d87a4a2a433f},{110,0x2f201082fe77f},{110,0x30447dcf03e4f},{110,0x30e5ddb529dff},{110,0x36d1333e611d5},{110,0x37b4cf0ccff8b},{110,0x3f144746851ff},{110,0x50ce4b3c372ff},{110,0x5271ae1cf732a},{110,0x6bf973e81375e},{110,0x6d2e8d2d1e6c9},{110,0x6e96b14af86fe},{110,0x75a0177a45143},{110,0x83eb3afa03719},{110,0x8b03fd6894b66},{110,0x98ce80d792f5c},{110,0xa59c28ee3f432},{110,0xa5a78142b38c2},{110,0xa7ae6a012306e},{110,0xadea59a92816b},{110,0xb38b7299a05a3},{110,0xb4f3a1ef04770},{110,0xbbfcea34e0d75},{110,0xc306327abd37a},{110,0xc458d699b1575},{110,0xd10542b5a5c5d},{110,0xd29013f2247b1},{110,0xdc64af11289c4},{110,0xdf2b53922eb8e},{110,0xe6394a302cbd7},{110,0xf00de54f30dea},{110,0xf9e2806e34ffd},
{111,0x9e63b656eeff},{111,0x1ba03f5b20fff},{111,0x247d4155fa07f},{111,0x29a1effc50859},{111,0x2a88ce7d4dd4d},{111,0x2b94761ea7a7f},{111,0x2c775cb7bd5bf},{111,0x2cff80ad30c7f},{111,0x2d1631561959f},{111,0x2d2ce1ff01ebf},{111,0x2d4392a7ea7df},{111,0x2d5a4350d30ff},{111,0x2ddb1748dc388},{111,0x2e3d29e9e8c3f},{111,0x2f201082fe77f},{111,0x30447dcf03e4f},{111,0x3637454bac17f},{111,0x36d1333e611d5},{111,0x3f144746851ff},{111,0x5271ae1cf732a},{111,0x52c4335eeecba},{111,0x62884f31e93ff},{111,0x6bf973e81375e},{111,0x7770d28b7f961},{111,0x83eb3afa03719},{111,0x8b03fd6894b66},{111,0x98ce80d792f5c},{111,0xa5a78142b38c2},{111,0xa7ae6a012306e},{111,0xb38b7299a05a3},{111,0xb4f3a1ef04770},{111,0xb512429518178},{111,0xbb2a62fe638ff},{111,0xbbfcea34e0d75},{111,0xbbfdc132b7c01},{111,0xc866bcb685d76},{111,0xd5d76b55555e8},{111,0xdc64af11289c4},{111,0xdf2b53922eb8e},{111,0xe6394a302cbd7},{111,0xf00de54f30dea},{111,0xf9e2806e34ffd},
{112,0x20dd967cab43},{112,0x7dc163bc81bb},{112,0x9e63b656eeff},{112,0x247d4155fa07f},{112,0x28ebc253668bf},{112,0x29a1effc50859},{112,0x2a88ce7d4dd4d},{112,0x2c775cb7bd5bf},{112,0x2ce8d0044835f},{112,0x2d1631561959f},{112,0x2d2189aa8da2f},{112,0x2d2ce1ff01ebf},{112,0x2d383a537634f},{112,0x2d4392a7ea7df},{112,0x2d5a4350d30ff},{112,0x2dcbb69d5de9f},{112,0x30447dcf03e4f},{112,0x31c8c44e3f93f},{112,0x3637454bac17f},{112,0x3e1bf95a62f52},{112,0x4c1c869eed157},{112,0x4e38e449ea543},{112,0x50fcd08466b57},{112,0x5271ae1cf732a},{112,0x5d5e371c32477},{112,0x62884f31e93ff},{112,0x6bf973e81375e},{112,0x72cfd8978422d},{112,0x83eb3afa03719},{112,0x8b03fd6894b66},{112,0x8ed959182667f},{112,0x9a30184f4ca6a},{112,0xa5a78142b38c2},{112,0xa7ae6a012306e},{112,0xb4f3a1ef04770},{112,0xb512429518178},{112,0xbbfcea34e0d75},{112,0xc866bcb685d76},{112,0xce226c083be78},{112,0xd3e93f9aae75e},{112,0xd7ec0176c677a},{112,0xe6394a302cbd7},{112,0xf00de54f30dea},{112,0xfe60037ddf584},
{113,0x20dd967cab43},{113,0x9e63b656eeff},{113,0x19292b9b674c9},{113,0x200ec0588d83f},{113,0x28ebc253668bf},{113,0x2b2302d21ccdf},{113,0x2cb0165e02c8f},{113,0x2ce8d0044835f},{113,0x2d2189aa8da2f},{113,0x2d2735d4c7c77},{113,0x2d2ce1ff01ebf},{113,0x2d328e293c107},{113,0x2d383a537634f},{113,0x2d5a4350d30ff},{113,0x2d92fcf7187cf},{113,0x2f9183cf8951f},{113,0x31c8c44e3f93f},{113,0x3637454bac17f},{113,0x3dc2cf80da452},{113,0x4c5fca3ecaabf},{113,0x4e38e449ea543},{113,0x50fcd08466b57},{113,0x5271ae1cf732a},{113,0x5d5e371c32477},{113,0x70a4b90b1adc8},{113,0x72cfd8978422d},{113,0x824a66edff0fa},{113,0x8314c61bb00e4},{113,0x83eb3afa03719},{113,0x8b03fd6894b66},{113,0x9a30184f4ca6a},{113,0x9d0745fe26499},{113,0xa5a78142b38c2},{113,0xa7ae6a012306e},{113,0xb14b6a82e93f0},{113,0xb177ff6fad970},{113,0xb7c4250e4d838},{113,0xbae86b04af773},{113,0xbbfcea34e0d75},{113,0xd281041e74bd7},{113,0xd7ec0176c677a},{113,0xe6394a302cbd7},{113,0xece3d3b9fe57f},{113,0xf00de54f30dea},{113,0xfe60037ddf584},
{114,0x13d244700a12f},{114,0x14fa7ddefe39f},{114,0x200ec0588d83f},{114,0x2b2302d21ccdf},{114,0x2c3ea31177eef},{114,0x2d052cd76aec7},{114,0x2d2189aa8da2f},{114,0x2d2a0be9e4d9b},{114,0x2d2ce1ff01ebf},{114,0x2d2e4d0990751},{114,0x2d2fb8141efe3},{114,0x2d328e293c107},{114,0x2d3de67db0597},{114,0x2d5a4350d30ff},{114,0x2e75e3902e30f},{114,0x2f9183cf8951f},{114,0x3637454bac17f},{114,0x3dc2cf80da452},{114,0x414b87c53b61f},{114,0x475fd002a07d5},{114,0x4c5fca3ecaabf},{114,0x4e38e449ea543},{114,0x5d5e371c32477},{114,0x60845e70b73b8},{114,0x648ffb617bd5c},{114,0x678d87ddd7d5b},{114,0x72cfd8978422d},{114,0x83eb3afa03719},{114,0x9d0745fe26499},{114,0xa5a6163825030},{114,0xa7ae6a012306e},{114,0xb14b6a82e93f0},{114,0xb7c4250e4d838},{114,0xbb2a62fe638ff},{114,0xbbfcea34e0d75},{114,0xbdbec0c6bd30c},{114,0xd7ec0176c677a},{114,0xe6394a302cbd7},{114,0xeb26027a52e7f},{114,0xece3d3b9fe57f},{114,0xed3de32e9bf76},{114,0xf00de54f30dea},{114,0xfe60037ddf584},
{115,0x46df64fbda43},{115,0xd9b828199006},{115,0x14fa7ddefe39f},{115,0x175675d5839e4},{115,0x2598e1955528f},{115,0x2b2302d21ccdf},{115,0x2c3ea31177eef},{115,0x2ccc7331257f7},{115,0x2d135b40fc47b},{115,0x2d2189aa8da2f},{115,0x2d2b76f47362d},{115,0x2d2ce1ff01ebf},{115,0x2d2d978449308},{115,0x2d2e4d0990751},{115,0x2d2fb8141efe3},{115,0x2d31231ead875},{115,0x2d3de67db0597},{115,0x2d4c14e741b4b},{115,0x2d5a4350d30ff},{115,0x2de8137080a07},{115,0x2e75e3902e30f},{115,0x30ad240ee472f},{115,0x3637454bac17f},{115,0x391b1fcb2fd58},{115,0x41a8d0fc6f7ce},{115,0x467b7fe8b53b6},{115,0x475fd002a07d5},{115,0x4c5fca3ecaabf},{115,0x4e38e449ea543},{115,0x5d5e371c32477},{115,0x648ffb617bd5c},{115,0x678d87ddd7d5b},{115,0x72cfd8978422d},{115,0x77871d01e1c21},{115,0x83c5169e971df},{115,0x83eb3afa03719},{115,0x8b1600afc356b},{115,0xa5a6cbbd6c479},{115,0xac849163d8702},{115,0xb14b6a82e93f0},{115,0xba949c06c0f46},{115,0xc4b200733a075},{115,0xc9b56a5cb0766},{115,0xd4705ef76f97a},{115,0xe1e30b175a30d},{115,0xe6394a302cbd7},{115,0xece3d3b9fe57f},{115,0xed3de32e9bf76},{115,0xf00de54f30dea},{115,0xf4c302fc19202},{115,0xfe60037ddf584},
{116,0x3fe81ffd2c83},{116,0x67420daad82a},{116,0xd9b828199006},{116,0xdd72d55e9175},{116,0x14fa7ddefe39f},{116,0x173883035f388},{116,0x20d583852570b},{116,0x285df233b8fb7},{116,0x2a7da9421cbed},{116,0x2b2302d21ccdf},{116,0x2ccc7331257f7},{116,0x2d135b40fc47b},{116,0x2d2189aa8da2f},{116,0x2d28a0df56509},{116,0x2d2ce1ff01ebf},{116,0x2d2d978449308},{116,0x2d2e4d0990751},{116,0x2d2f028ed7b9a},{116,0x2d2fb8141efe3},{116,0x2d36cf48e7abd},{116,0x2d3de67db0597},{116,0x2d5a4350d30ff},{116,0x2da12b60a9d83},{116,0x2de8137080a07},{116,0x30ad240ee472f},{116,0x337234ad48457},{116,0x391b1fcb2fd58},{116,0x3c5e281ab7852},{116,0x41a8d0fc6f7ce},{116,0x4c5fca3ecaabf},{116,0x4e38e449ea543},{116,0x61385ef8dc755},{116,0x648ffb617bd5c},{116,0x6812706eb0e4f},{116,0x72cfd8978422d},{116,0x8b1600afc356b},{116,0x946943c265809},{116,0xa5a6cbbd6c479},{116,0xac849163d8702},{116,0xb14b6a82e93f0},{116,0xc4b200733a075},{116,0xddab98feed161},{116,0xdf2b90545ac30},{116,0xe1e30b175a30d},{116,0xece3d3b9fe57f},{116,0xf3930c139757c},{116,0xf9e834f892b82},
{117,0x3fe81ffd2c83},{117,0xd9b828199006},{117,0xee54b5818907},{117,0x14fa7ddefe39f},{117,0x173883035f388},{117,0x22d3d0f6f1567},{117,0x2a2adcf519cd1},{117,0x2a728406eba8d},{117,0x2b2302d21ccdf},{117,0x2c858b214eb73},{117,0x2cefe73910e39},{117,0x2d135b40fc47b},{117,0x2d28a0df56509},{117,0x2d2c2c79baa76},{117,0x2d2d978449308},{117,0x2d2e4d0990751},{117,0x2d2fb8141efe3},{117,0x2d3343ae83550},{117,0x2d36cf48e7abd},{117,0x2d5a4350d30ff},{117,0x2d7db758be741},{117,0x2de8137080a07},{117,0x2f4a9bbfb289b},{117,0x30ad240ee472f},{117,0x3c5e281ab7852},{117,0x3e867726d78f7},{117,0x4c5fca3ecaabf},{117,0x5a83868fcac1a},{117,0x6462f36b5a258},{117,0x6d45119fd505c},{117,0x6de2b0c2d3361},{117,0x6e88fffee44f2},{117,0x72cfd8978422d},{117,0x7b410314ef30a},{117,0x8acc43409f486},{117,0x8e138c3cd3d48},{117,0x946943c265809},{117,0x9e0644442bb8b},{117,0x9f77bcce7d56f},{117,0xc4b200733a075},{117,0xc6b7decf9ff89},{117,0xe1e30b175a30d},{117,0xe79cbad1c5d0d},{117,0xf06877a119a79},{117,0xf4c302fc19202},{117,0xf9e834f892b82},
{118,0xd9b828199006},{118,0xee54b5818907},{118,0x14fa7ddefe39f},{118,0x1ccae7173b8c6},{118,0x22d3d0f6f1567},{118,0x29c07a82eae4b},{118,0x2a728406eba8d},{118,0x2bd446f9b5c29},{118,0x2c858b214eb73},{118,0x2d135b40fc47b},{118,0x2d251544f1f9c},{118,0x2d2c2c79baa76},{118,0x2d2d978449308},{118,0x2d2e4d0990751},{118,0x2d2fb8141efe3},{118,0x2d36cf48e7abd},{118,0x2d48894cdd5de},{118,0x2de8137080a07},{118,0x2e99579819951},{118,0x30ad240ee472f},{118,0x31a3337ff863e},{118,0x3799cd9ade013},{118,0x51026321ff407},{118,0x5818e87da9e60},{118,0x5a391d56bdc87},{118,0x5e0dca865ec52},{118,0x72cfd8978422d},{118,0x7792423d12d81},{118,0x946943c265809},{118,0x9f77bcce7d56f},{118,0xa7a344c5f1f0e},{118,0xad3649b4a4f9d},{118,0xb94e2d0e310f0},{118,0xc3c4eb6a633c3},{118,0xc6b7decf9ff89},{118,0xc73b817db2acf},{118,0xd6ba65d6efb53},{118,0xd7d02462cbc0a},{118,0xe1e30b175a30d},{118,0xea134ebc1e473},{118,0xf0f21aedd5ab2},{118,0xf4c302fc19202},{118,0xf9e834f892b82},
{119,0x36b07218aab9},{119,0xd9b828199006},{119,0xee54b5818907},{119,0x14fa7ddefe39f},{119,0x15d67e8015f15},{119,0x1ff57b89b93c9},{119,0x264a25bcee1d9},{119,0x29c07a82eae4b},{119,0x2c858b214eb73},{119,0x2cde2d351b318},{119,0x2d251544f1f9c},{119,0x2d2c2c79baa76},{119,0x2d2fb8141efe3},{119,0x2d36cf48e7abd},{119,0x2d8f715cb4262},{119,0x2de8137080a07},{119,0x30ad240ee472f},{119,0x342378d4e13a1},{119,0x3799cd9ade013},{119,0x40da91f7ce59a},{119,0x43c48a08a60a4},{119,0x51026321ff407},{119,0x5818e87da9e60},{119,0x5a391d56bdc87},{119,0x5e0dca865ec52},{119,0x6350f43e471a9},{119,0x72cfd8978422d},{119,0x7cd86d129d8fb},{119,0x946943c265809},{119,0x9a5b527b3ddab},{119,0xa7a344c5f1f0e},{119,0xabfaffbf78bea},{119,0xc3c4eb6a633c3},{119,0xc73b817db2acf},{119,0xca69824335655},{119,0xce3323e105888},{119,0xd7d02462cbc0a},{119,0xe1e30b175a30d},{119,0xf0f21aedd5ab2},
{120,0xd9b828199006},{120,0xee54b5818907},{120,0x14fa7ddefe39f},{120,0x264a25bcee1d9},{120,0x29c07a82eae4b},{120,0x2b7ba4e5e9484},{120,0x2cde2d351b318},{120,0x2d251544f1f9c},{120,0x2d36cf48e7abd},{120,0x2d8f715cb4262},{120,0x2ef1f9abe60f6},{120,0x30ad240ee472f},{120,0x3799cd9ade013},{120,0x40da91f7ce59a},{120,0x43c48a08a60a4},{120,0x48e97578cde4d},{120,0x51026321ff407},{120,0x52d399df21849},{120,0x5818e87da9e60},{120,0x5e0dca865ec52},{120,0x651172f895521},{120,0x787a51bf411d3},{120,0x85046522ebc1e},{120,0x93499f57030a6},{120,0x946943c265809},{120,0x987fb27132404},{120,0x9a5b527b3ddab},{120,0x9e222158266fb},{120,0xabfaffbf78bea},{120,0xb1246833bd720},{120,0xbaeb34537bbcb},{120,0xbbcfe5fbed2f9},{120,0xbc4bb89b418cd},{120,0xc3c4eb6a633c3},{120,0xce3323e105888},{120,0xd2738d3e4fe18},{120,0xd7d02462cbc0a},
{121,0x3aad6010e565},{121,0xee54b5818907},{121,0x12c5046e67d28},{121,0x1da251cdf62bc},{121,0x2000adba97df3},{121,0x264a25bcee1d9},{121,0x2b7ba4e5e9484},{121,0x2d36cf48e7abd},{121,0x2ef1f9abe60f6},{121,0x34395026a9f38},{121,0x343e3d0d0ffed},{121,0x36d9469a2799c},{121,0x3799cd9ade013},{121,0x3dba73947574a},{121,0x4041a189d5f30},{121,0x40da91f7ce59a},{121,0x51026321ff407},{121,0x52d399df21849},{121,0x5818e87da9e60},{121,0x5a391d56bdc87},{121,0x5e0dca865ec52},{121,0x787ddd59a5740},{121,0x8b4c42a4c2606},{121,0x93499f57030a6},{121,0x95463addfce3c},{121,0x987fb27132404},{121,0x9a5b527b3ddab},{121,0x9e222158266fb},{121,0xa7a344c5f1f0e},{121,0xb0c764ac6d3a9},{121,0xbaeb34537bbcb},{121,0xbbcfe5fbed2f9},{121,0xc31cb41f914a7},{121,0xc3c4eb6a633c3},{121,0xc3e85f724ea05},{121,0xc48f2c1a40a29},{121,0xe96a383ff44bb},{121,0xf25501a0f615f},
{122,0x3aad6010e565},{122,0x4057944d175f},{122,0x60610aea2468},{122,0x78a6b3e8deeb},{122,0x173bfea5de8f6},{122,0x264a25bcee1d9},{122,0x2d36cf48e7abd},{122,0x2ef1f9abe60f6},{122,0x36d9469a2799c},{122,0x3dba73947574a},{122,0x4ca7d802d2a87},{122,0x51026321ff407},{122,0x52d1794f4bb6e},{122,0x52d399df21849},{122,0x5a391d56bdc87},{122,0x5d2e001aeadcf},{122,0x5e0dca865ec52},{122,0x655a98aa02e00},{122,0x6dee4a764df23},{122,0x76af91add364e},{122,0x788f975d9b261},{122,0x8580410195818},{122,0x8ac8c79e1ff18},{122,0x95463addfce3c},{122,0x987fb27132404},{122,0x9a5b527b3ddab},{122,0xa7a344c5f1f0e},{122,0xbbcfe5fbed2f9},{122,0xbf764d0dbf3d0},{122,0xc3c4eb6a633c3},{122,0xc44101861b1aa},{122,0xc48f2c1a40a29},{122,0xcd2e3e9fc7801},{122,0xd69791d52bc3f},{122,0xd788a4db90d87},{122,0xd7d71ba7ca6e6},{122,0xeb87884040687},{122,0xfe89cf1bd76ac},
{123,0x3aad6010e565},{123,0x4057944d175f},{123,0x60610aea2468},{123,0x78a6b3e8deeb},{123,0x1707c02068784},{123,0x173bfea5de8f6},{123,0x20dff66ca3755},{123,0x2d36cf48e7abd},{123,0x2ef1f9abe60f6},{123,0x3365520a4d16d},{123,0x341f30e3eee7f},{123,0x3dba73947574a},{123,0x51026321ff407},{123,0x5a391d56bdc87},{123,0x655a98aa02e00},{123,0x65a7ab5478957},{123,0x6de595600f990},{123,0x76af91add364e},{123,0x85fae645e8245},{123,0x8ac8c79e1ff18},{123,0x8ec20bca0f011},{123,0x974fdf49b8a93},{123,0x987fb27132404},{123,0x9f7e6cd1e45f3},{123,0xbbcfe5fbed2f9},{123,0xc3c4eb6a633c3},{123,0xc44101861b1aa},{123,0xcd2e3e9fc7801},{123,0xed1eee86c6e01},{123,0xf4b198cf9c6dc},{123,0xf61f4e0bba575},{123,0xfe89cf1bd76ac},
{124,0x1700b6a974da},{124,0x4057944d175f},{124,0x78a6b3e8deeb},{124,0xd869cb29cf72},{124,0x1707c02068784},{124,0x1a609d43bacd4},{124,0x1e6faba464f02},{124,0x20dff66ca3755},{124,0x2d36cf48e7abd},{124,0x2ef1f9abe60f6},{124,0x43e0765b9da07},{124,0x64419d994ab31},{124,0x655a98aa02e00},{124,0x79997d9900950},{124,0x8147a43054706},{124,0x85fae645e8245},{124,0x8ac8c79e1ff18},{124,0x8ec20bca0f011},{124,0x9449eb0beb72b},{124,0x94b64b5f6de8d},{124,0x987fb27132404},{124,0xb0c764ac6d3a9},{124,0xbb992d972328d},{124,0xc3c4eb6a633c3},{124,0xc44101861b1aa},{124,0xc8799505155e2},{124,0xcd2e3e9fc7801},{124,0xe994c37ca85d7},{124,0xed1eee86c6e01},{124,0xf02a8e516f78f},{124,0xf2d38b75588f9},{124,0xf4b198cf9c6dc},{124,0xfb3a6c89243b9},{124,0xfe89cf1bd76ac},
{125,0x1700b6a974da},{125,0x4057944d175f},{125,0x78a6b3e8deeb},{125,0xd9c616a38d61},{125,0x1707c02068784},{125,0x1e6faba464f02},{125,0x1ebfecfb66537},{125,0x2d36cf48e7abd},{125,0x2ef1f9abe60f6},{125,0x2f88471445e3c},{125,0x343cf0aef805b},{125,0x3c0fce8c35594},{125,0x43e0765b9da07},{125,0x4767207178b3c},{125,0x655a98aa02e00},{125,0x69514112d650c},{125,0x7785329bb5525},{125,0x79997d9900950},{125,0x8ac8c79e1ff18},{125,0x8b65c962c804a},{125,0x9eed3f8f8dd7d},{125,0xbb992d972328d},{125,0xc09aa967862ff},{125,0xc3c4eb6a633c3},{125,0xc44101861b1aa},{125,0xc8799505155e2},{125,0xc8e9b7396d3a9},{125,0xcd2e3e9fc7801},{125,0xce2a6ecac72f5},{125,0xd51e84b44e8f6},{125,0xdb4c3b6fdde5e},{125,0xe6e05141fae1e},{125,0xe994c37ca85d7},{125,0xf2d38b75588f9},{125,0xf4b198cf9c6dc},{125,0xfb3a6c89243b9},{125,0xfe89cf1bd76ac},
{126,0x1707c02068784},{126,0x1e6faba464f02},{126,0x1ebfecfb66537},{126,0x2a76de920ad57},{126,0x2cc479f42099d},{126,0x2d36cf48e7abd},{126,0x2ef1f9abe60f6},{126,0x38f19a49aa27a},{126,0x3c0fce8c35594},{126,0x4767207178b3c},{126,0x4b5b23244a18b},{126,0x4c3294842c63d},{126,0x50e843df4434e},{126,0x5fa201cc18bf9},{126,0x615d7d3697162},{126,0x655a98aa02e00},{126,0x69514112d650c},{126,0x7d2efb59f33f2},{126,0x8ac8c79e1ff18},{126,0xa1a291d12c0ae},{126,0xa44b4ec8c93c2},{126,0xc3c4eb6a633c3},{126,0xc44101861b1aa},{126,0xc4a94b5cfbae2},{126,0xc95efab8137f4},{126,0xcd27276afed27},{126,0xce2a6ecac72f5},{126,0xd51e84b44e8f6},{126,0xddea8af85535c},{126,0xe153522f2fe43},{126,0xe6e05141fae1e},{126,0xe994c37ca85d7},{126,0xf2d38b75588f9},{126,0xfe89cf1bd76ac},
{127,0xf663c660dac},{127,0xba648656b162},{127,0xe7c9eebc4449},{127,0x10c933373e20d},{127,0x17f42eb923751},{127,0x1e6faba464f02},{127,0x1ebfecfb66537},{127,0x2ef1f9abe60f6},{127,0x33f801ffd6569},{127,0x38eeff81c1c49},{127,0x38f19a49aa27a},{127,0x3c0fce8c35594},{127,0x50e843df4434e},{127,0x581eef5dd2d35},{127,0x5fa201cc18bf9},{127,0x615d7d3697162},{127,0x69514112d650c},{127,0x6dd885beb2133},{127,0x6fad4b317641b},{127,0x7d2efb59f33f2},{127,0x837e953d97757},{127,0x8ac8c79e1ff18},{127,0x95baee61a666e},{127,0xa44b4ec8c93c2},{127,0xa49796563a908},{127,0xa7b9097d8dcfd},{127,0xb9d491c783773},{127,0xc4a94b5cfbae2},{127,0xcd27276afed27},{127,0xdca28fba7e1e7},{127,0xddea8af85535c},{127,0xe153522f2fe43},{127,0xe1998d3c698c7},{127,0xe994c37ca85d7},{127,0xf1103d4ea24db},{127,0xf2d38b75588f9},
{128,0xf663c660dac},{128,0xba648656b162},{128,0x10021b7392ae2},{128,0x10c933373e20d},{128,0x1e6faba464f02},{128,0x1ebfecfb66537},{128,0x261b68447d491},{128,0x32fb4488ea4f0},{128,0x38eeff81c1c49},{128,0x38f19a49aa27a},{128,0x3c0fce8c35594},{128,0x47369c166e4a9},{128,0x521bc6a6b555c},{128,0x581eef5dd2d35},{128,0x5f6064cefb241},{128,0x615d7d3697162},{128,0x61dbe38ff0db1},{128,0x69514112d650c},{128,0x6dd885beb2133},{128,0x73eb5a842dde5},{128,0x7c50a6ae69026},{128,0x7d2efb59f33f2},{128,0x80c4791ae5e94},{128,0x837e953d97757},{128,0x8ac8c79e1ff18},{128,0x8cfd2cc245478},{128,0x95baee61a666e},{128,0x9940e88dd6e0b},{128,0xa44b4ec8c93c2},{128,0xa49796563a908},{128,0xa7b9097d8dcfd},{128,0xb3b5abac4f080},{128,0xd296f889e5c32},{128,0xd401e5f2449be},{128,0xddea8af85535c},{128,0xe739205afb622},{128,0xe994c37ca85d7},{128,0xef2ce4373a9cc},
{129,0xf663c660dac},{129,0x1e6faba464f02},{129,0x32fb4488ea4f0},{129,0x38eeff81c1c49},{129,0x38f19a49aa27a},{129,0x3fe6946d7e032},{129,0x4a00f28dbc6d8},{129,0x57db396365fc5},{129,0x615d7d3697162},{129,0x61dbe38ff0db1},{129,0x64867da73d506},{129,0x69c6ae28234ef},{129,0x6a0feeb5403a2},{129,0x73eb5a842dde5},{129,0x7c50a6ae69026},{129,0x7d2efb59f33f2},{129,0x7db1d82a30881},{129,0x82d465ffb0292},{129,0x8ac8c79e1ff18},{129,0x8cfd2cc245478},{129,0x92a696fecd29b},{129,0x9940e88dd6e0b},{129,0x9c48815a5a06f},{129,0xa44b4ec8c93c2},{129,0xb573dbdd4d3ea},{129,0xc5c23791e24f2},{129,0xc60bc066946fb},{129,0xd0b4daed3403d},{129,0xd296f889e5c32},{129,0xd401e5f2449be},{129,0xddea8af85535c},{129,0xe994c37ca85d7},{129,0xe9dcf149ba322},{129,0xf20ec693bc6db},{129,0xf225e285d9315},{129,0xfb29a9fa1000a},
{130,0x608b9f466227},{130,0x1d3c7d02cec1c},{130,0x1ddb5cb30c2f8},{130,0x228db4c24817b},{130,0x26636f80a42ac},{130,0x27e2420597e1c},{130,0x28ea1c35e8415},{130,0x2bb49df285b0f},{130,0x32fb4488ea4f0},{130,0x38f19a49aa27a},{130,0x3fe6946d7e032},{130,0x408485c9dd8a5},{130,0x4179466bb34a9},{130,0x50a208d20a8ca},{130,0x57db396365fc5},{130,0x615d7d3697162},{130,0x61dbe38ff0db1},{130,0x69bb3768dd5ae},{130,0x7218f19b239fa},{130,0x73eb5a842dde5},{130,0x76e6c03551513},{130,0x7d2efb59f33f2},{130,0x82d465ffb0292},{130,0x8ac8c79e1ff18},{130,0x8cfd2cc245478},{130,0x938fda643cb2a},{130,0x9cae3f4e23bdf},{130,0xa0b7fe70072ce},{130,0xa5dc6a6cd5869},{130,0xb573dbdd4d3ea},{130,0xc8724c2ddb33c},{130,0xc9af336ad13a3},{130,0xcec94e7b049d1},{130,0xd0b4daed3403d},{130,0xd975d3baad04b},{130,0xddea8af85535c},{130,0xe994c37ca85d7},{130,0xe9dcf149ba322},{130,0xf225e285d9315},{130,0xfa6c80c602b27},
{131,0x608b9f466227},{131,0x26636f80a42ac},{131,0x27d476feb15db},{131,0x27e2420597e1c},{131,0x28ea1c35e8415},{131,0x2bb49df285b0f},{131,0x32fb4488ea4f0},{131,0x37e7b40e44b8b},{131,0x4179466bb34a9},{131,0x521bc6a6b555c},{131,0x52889eafc5907},{131,0x5402a2507759a},{131,0x58ffc30450d16},{131,0x615d7d3697162},{131,0x69bb3768dd5ae},{131,0x7218f19b239fa},{131,0x73eb5a842dde5},{131,0x76e6c03551513},{131,0x7a76abcd69e46},{131,0x7d2efb59f33f2},{131,0x8ac8c79e1ff18},{131,0x8cfd2cc245478},{131,0xa0b7fe70072ce},{131,0xa6a2b85062ab3},{131,0xab35c1349832f},{131,0xbe748e7a9564a},{131,0xc76a10e9fe77a},{131,0xccecaf6a4c53d},{131,0xcdb5fb6e2189c},{131,0xceee012c196b2},{131,0xdb64d05a0342f},{131,0xddea8af85535c},{131,0xe994c37ca85d7},{131,0xe9dcf149ba322},{131,0xf225e285d9315},{131,0xf63da3acdf901},{131,0xf855123971214},{131,0xfa6c80c602b27},{131,0xfb29a9fa1000a},{131,0xfb5b379761b28},
{132,0x366999494083},{132,0x608b9f466227},{132,0x83f72ed0f955},{132,0x10518b4bb1650},{132,0x2b6ff587cd132},{132,0x3cfa0a3c4a006},{132,0x466b202edadc9},{132,0x5d2ea01d73f3c},{132,0x615d7d3697162},{132,0x658c5a4fba388},{132,0x67a3c8dc4bc9b},{132,0x69bb3768dd5ae},{132,0x6dea1482007d4},{132,0x6f65b4f74ba59},{132,0x7218f19b239fa},{132,0x744cba946e43b},{132,0x7d2efb59f33f2},{132,0x7d32aab974635},{132,0x8ac8c79e1ff18},{132,0x8cfd2cc245478},{132,0x98ca618c3fec0},{132,0xa0b7fe70072ce},{132,0xa60e7e4306552},{132,0xc76a10e9fe77a},{132,0xcda89ef0b2603},{132,0xdb64d05a0342f},{132,0xe9dcf149ba322},{132,0xf225e285d9315},{132,0xf855123971214},{132,0xfb29a9fa1000a},
{133,0x2a001f8473f0},{133,0x366999494083},{133,0x608b9f466227},{133,0x2056db7401e68},{133,0x233d7a3e92a1b},{133,0x2b6ff587cd132},{133,0x3cfa0a3c4a006},{133,0x44f179959b880},{133,0x466b202edadc9},{133,0x6374ebc328a75},{133,0x658c5a4fba388},{133,0x67a3c8dc4bc9b},{133,0x69bb3768dd5ae},{133,0x6bd2a5f56eec1},{133,0x6dea1482007d4},{133,0x6f65b4f74ba59},{133,0x7d173e4ab5cb9},{133,0x7d2efb59f33f2},{133,0x7d32aab974635},{133,0x7dddd5e70294c},{133,0x8ac8c79e1ff18},{133,0x8cfd2cc245478},{133,0x9180fbe5f755d},{133,0x919ebcce7cca2},{133,0xa0b7fe70072ce},{133,0xb9a77b7cf6780},{133,0xc76a10e9fe77a},{133,0xcda89ef0b2603},{133,0xe9dcf149ba322},{133,0xf098cbc4da55f},{133,0xf225e285d9315},{133,0xf78e7a9d24581},{133,0xf7cd84152c812},{133,0xf855123971214},
{134,0x2056db7401e68},{134,0x22c651a8757f0},{134,0x233d7a3e92a1b},{134,0x2b6ff587cd132},{134,0x39662745efd6e},{134,0x3cfa0a3c4a006},{134,0x43fd522826d82},{134,0x445f7294bc5e4},{134,0x44f179959b880},{134,0x466b202edadc9},{134,0x5038127c03828},{134,0x57a48f0ce7f33},{134,0x658c5a4fba388},{134,0x6613f9fbea200},{134,0x67a3c8dc4bc9b},{134,0x68f7532bf067c},{134,0x69bb3768dd5ae},{134,0x6f65b4f74ba59},{134,0x7d32aab974635},{134,0x8766dc143804a},{134,0x8a09df8fc69e6},{134,0x8c55f6d6b983e},{134,0x8c82cc715a676},{134,0x8cfd2cc245478},{134,0x919ebcce7cca2},{134,0xa0b7fe70072ce},{134,0xa6a2b85062ab3},{134,0xaffc6d8ade758},{134,0xb3dd63985e637},{134,0xb64b658532874},{134,0xb7ac469fa6ca5},{134,0xb9a77b7cf6780},{134,0xc16109d5ccdb9},{134,0xd508dfeeef070},{134,0xe9dcf149ba322},{134,0xeb29a2e9a4fb7},{134,0xf098cbc4da55f},{134,0xf225e285d9315},{134,0xf464a9276f587},{134,0xf855123971214},
{135,0x2cc60cdef1ac},{135,0xd6e224cd8805},{135,0xe1df34dbe8cb},{135,0x20eb9fff46a84},{135,0x22c651a8757f0},{135,0x2b6ff587cd132},{135,0x37aa9e32618ef},{135,0x3cfa0a3c4a006},{135,0x44f179959b880},{135,0x466b202edadc9},{135,0x48c1f7c1db999},{135,0x5038127c03828},{135,0x5465ee1e9dbe4},{135,0x57a48f0ce7f33},{135,0x5e87592b24eea},{135,0x67a3c8dc4bc9b},{135,0x68f7532bf067c},{135,0x6f65b4f74ba59},{135,0x7d32aab974635},{135,0x8766dc143804a},{135,0x8c55f6d6b983e},{135,0x8c82cc715a676},{135,0x8cfd2cc245478},{135,0x919ebcce7cca2},{135,0x9a6f78ac8d96d},{135,0xa6a2b85062ab3},{135,0xb10306589a274},{135,0xb8cba9f071dde},{135,0xc16109d5ccdb9},{135,0xc255848815529},{135,0xcedd2a710c4ac},{135,0xd508dfeeef070},{135,0xe9dcf149ba322},{135,0xf098cbc4da55f},{135,0xf225e285d9315},{135,0xf855123971214},
{136,0x2cc60cdef1ac},{136,0xe1df34dbe8cb},{136,0x20eb9fff46a84},{136,0x24aa3361bd6ba},{136,0x2b6ff587cd132},{136,0x32ee8cca71182},{136,0x3cfa0a3c4a006},{136,0x44f179959b880},{136,0x56f46660c5f7e},{136,0x5ff5dcc65b2fd},{136,0x67a3c8dc4bc9b},{136,0x68f7532bf067c},{136,0x6f65b4f74ba59},{136,0x78130afcd0dc6},{136,0x7afa3ff71ad7a},{136,0x7d32aab974635},{136,0x7f037708d96b2},{136,0x89f4d442c9360},{136,0x8bd111b300fd1},{136,0x8c82cc715a676},{136,0x8cfd2cc245478},{136,0x916a208e03453},{136,0x919ebcce7cca2},{136,0x9f216fb42bf83},{136,0xc10ce3d568d5e},{136,0xc255848815529},{136,0xd508dfeeef070},{136,0xdd554b60c339f},{136,0xf098cbc4da55f},{136,0xf225e285d9315},{136,0xf855123971214},
{137,0x825b3323dab0},{137,0x9aa6c890f845},{137,0xdfdc476cb097},{137,0x1f95e0802f7b4},{137,0x20eb9fff46a84},{137,0x24aa3361bd6ba},{137,0x2b6ff587cd132},{137,0x3b56a24cafcde},{137,0x3cfa0a3c4a006},{137,0x3fa9fa3a6b530},{137,0x4df2effb30bff},{137,0x53dfac3a66a8f},{137,0x56f46660c5f7e},{137,0x5aa9c113193a5},{137,0x5ff5dcc65b2fd},{137,0x648a5f60326a1},{137,0x68f7532bf067c},{137,0x71f8c991859fb},{137,0x7afa3ff71ad7a},{137,0x7f037708d96b2},{137,0x8481de363ab03},{137,0x84d8e3e5a6d34},{137,0x8b3bd05a11ceb},{137,0x8bd111b300fd1},{137,0x8c388ccb5c808},{137,0x8c82cc715a676},{137,0x916a208e03453},{137,0x919ebcce7cca2},{137,0x94fca6b2308e2},{137,0xa90ddfa61a309},{137,0xab2a6ea028b7e},{137,0xc03e15fb83c16},{137,0xc10ce3d568d5e},{137,0xc255848815529},{137,0xc46cf314a6e3c},{137,0xd508dfeeef070},
{138,0x7b3b4ea97f89},{138,0xdfdc476cb097},{138,0x1bf553d6024b0},{138,0x20eb9fff46a84},{138,0x24aa3361bd6ba},{138,0x2fac21fbbff5e},{138,0x3b56a24cafcde},{138,0x3cfa0a3c4a006},{138,0x3fa9fa3a6b530},{138,0x4df2effb30bff},{138,0x56f46660c5f7e},{138,0x5dfec0a291b5c},{138,0x5ff5dcc65b2fd},{138,0x648a5f60326a1},{138,0x68f7532bf067c},{138,0x6b4d3213fae58},{138,0x6e811bd5b5907},{138,0x7afa3ff71ad7a},{138,0x7f037708d96b2},{138,0x8481de363ab03},{138,0x882977f49dd6a},{138,0x8b3bd05a11ceb},{138,0x8c82cc715a676},{138,0x919ebcce7cca2},{138,0x99689cc4a4de4},{138,0xa0082d6f21208},{138,0xa8018ff304ef5},{138,0xa90ddfa61a309},{138,0xa97f69a6452dd},{138,0xab2a6ea028b7e},{138,0xaba9159d22f06},{138,0xb3b17eb01a5a4},{138,0xbe26a76ef2303},{138,0xc10ce3d568d5e},{138,0xc255848815529},{138,0xc47f307ef3152},{138,0xc89bd02dca062},{138,0xd310f8eca1dc1},{138,0xd508dfeeef070},
{139,0x39d2dc3e2513},{139,0x66cb8d34f5fe},{139,0x24aa3361bd6ba},{139,0x4d7c656f6ddb1},{139,0x4df2effb30bff},{139,0x4dfb2fd9ec5f1},{139,0x52031137a2301},{139,0x5dfec0a291b5c},{139,0x5ff5dcc65b2fd},{139,0x648a5f60326a1},{139,0x6b4d3213fae58},{139,0x6e811bd5b5907},{139,0x737fdbf4e95f2},{139,0x7494b1f058406},{139,0x7afa3ff71ad7a},{139,0x7f037708d96b2},{139,0x8481de363ab03},{139,0x882977f49dd6a},{139,0x889f344e096bf},{139,0x8b3bd05a11ceb},{139,0x8f85d23bfd45d},{139,0x9452047392d87},{139,0x96c7deee2a706},{139,0xa0082d6f21208},{139,0xab2a6ea028b7e},{139,0xaba9159d22f06},{139,0xbe26a76ef2303},{139,0xc00f4f006bcde},{139,0xc255848815529},{139,0xc47f307ef3152},{139,0xc89bd02dca062},{139,0xcd8110229923a},{139,0xce46da2917527},{139,0xf969e834e0029},{139,0xfa7ebe304ee3d},{139,0xfce59be80133d},
{140,0xb8540e28e655},{140,0xccfa547ba5b5},{140,0x12038f34b41e1},{140,0x19d9d78f689ed},{140,0x24aa3361bd6ba},{140,0x293939d21aba7},{140,0x4c9f72a90ad60},{140,0x4df2effb30bff},{140,0x4dfb2fd9ec5f1},{140,0x4feba2ab109ee},{140,0x52031137a2301},{140,0x5dfec0a291b5c},{140,0x5ff5dcc65b2fd},{140,0x648a5f60326a1},{140,0x6afd4789d7a58},{140,0x6b4d3213fae58},{140,0x6e811bd5b5907},{140,0x737fdbf4e95f2},{140,0x7494b1f058406},{140,0x7afa3ff71ad7a},{140,0x7f037708d96b2},{140,0x8481de363ab03},{140,0x882977f49dd6a},{140,0x8a2c4adfdbc15},{140,0x8b3bd05a11ceb},{140,0x8f9478c90627c},{140,0x9452047392d87},{140,0x9c89f137a5aac},{140,0xa43da80cd9fda},{140,0xb7112f8bb0b61},{140,0xbb53e05e09f0c},{140,0xbe26a76ef2303},{140,0xc255848815529},{140,0xc47f307ef3152},{140,0xc89bd02dca062},{140,0xce46da2917527},{140,0xde6a215c321b3},{140,0xe0953afc34ff4},{140,0xfa7ebe304ee3d},
{141,0xccfa547ba5b5},{141,0x169ac5f9d6dec},{141,0x24aa3361bd6ba},{141,0x293939d21aba7},{141,0x4c05bad0e6150},{141,0x4dfb2fd9ec5f1},{141,0x4feba2ab109ee},{141,0x5ff5dcc65b2fd},{141,0x6b4d3213fae58},{141,0x6e811bd5b5907},{141,0x7afa3ff71ad7a},{141,0x818a2a5ef7c37},{141,0x8481de363ab03},{141,0x8a2c4adfdbc15},{141,0x8b3bd05a11ceb},{141,0x8c43b96c6d528},{141,0x8f9478c90627c},{141,0x8f9bf401fa6aa},{141,0xa640e7b3f889f},{141,0xa862a41133ee6},{141,0xb25269f874b8d},{141,0xb7112f8bb0b61},{141,0xc255848815529},{141,0xc89bd02dca062},{141,0xc9cabee03b6fb},{141,0xca71e5e33d886},{141,0xd05244fe50669},{141,0xde6a215c321b3},{141,0xe05497a16fdc1},{141,0xe48226f716b54},{141,0xe8d4fc4a601de},{141,0xec746fc6407f8},{141,0xfa7ebe304ee3d},
{142,0xccfa547ba5b5},{142,0x13938be9b3eb4},{142,0x20e93bfef3730},{142,0x24aa3361bd6ba},{142,0x293939d21aba7},{142,0x4b5eb979d4cd9},{142,0x4c05bad0e6150},{142,0x4dfb2fd9ec5f1},{142,0x4feba2ab109ee},{142,0x5a3a851616449},{142,0x67f04bd807bee},{142,0x6b4d3213fae58},{142,0x6e17ae0bbef8b},{142,0x6e811bd5b5907},{142,0x737503fea6b87},{142,0x7afa3ff71ad7a},{142,0x854b19fc8aa12},{142,0x888f5193fef59},{142,0x8b3bd05a11ceb},{142,0x8c43b96c6d528},{142,0x8f26ba6c1e62d},{142,0xb25269f874b8d},{142,0xb44b361e06ee4},{142,0xb87f3a1f7efa4},{142,0xc255848815529},{142,0xc600cbfe59fde},{142,0xc89bd02dca062},{142,0xca71e5e33d886},{142,0xcfeb03aa90530},{142,0xd05244fe50669},{142,0xd05fd2f223b6e},{142,0xd8b8663c15120},{142,0xde6a215c321b3},{142,0xdf099c9cd8b36},{142,0xe48226f716b54},{142,0xe56f4891394d6},{142,0xea60842954719},{142,0xec746fc6407f8},{142,0xfa7ebe304ee3d},
{143,0xccfa547ba5b5},{143,0x20e93bfef3730},{143,0x24aa3361bd6ba},{143,0x27e425f977032},{143,0x293939d21aba7},{143,0x2d656a90d35d3},{143,0x31bf974a62451},{143,0x41b9df74187f8},{143,0x4b5eb979d4cd9},{143,0x4c05bad0e6150},{143,0x4dfb2fd9ec5f1},{143,0x4feba2ab109ee},{143,0x569cc27ade30a},{143,0x6e17ae0bbef8b},{143,0x7afa3ff71ad7a},{143,0x7b9814b887667},{143,0x8022acf9d2bc6},{143,0x888f5193fef59},{143,0x8b3bd05a11ceb},{143,0x8c43b96c6d528},{143,0x9f69b06a02fb8},{143,0xaa6fc4cd1bac5},{143,0xb44b361e06ee4},{143,0xb87f3a1f7efa4},{143,0xba81e0ad1fba9},{143,0xbfcfe9cb2c8be},{143,0xc08d8526a4803},{143,0xc89bd02dca062},{143,0xcfeb03aa90530},{143,0xd05244fe50669},{143,0xd05fd2f223b6e},{143,0xd0aa1b34ef8c1},{143,0xd764fa272ae91},{143,0xde6a215c321b3},{143,0xe0d4a03174414},{143,0xe48226f716b54},{143,0xe56f4891394d6},{143,0xec746fc6407f8},{143,0xf37996fb47b1b},{143,0xf78a423ed6787},{143,0xfa7ebe304ee3d},
{144,0xc1f2b2ab0b0},{144,0xccfa547ba5b5},{144,0x10b894301cf56},{144,0x1d1a87ec46dc4},{144,0x2d656a90d35d3},{144,0x31bf974a62451},{144,0x358c2dfee0446},{144,0x4b5eb979d4cd9},{144,0x4feba2ab109ee},{144,0x6e17ae0bbef8b},{144,0x7d8e767876ca0},{144,0x7dc67cfe9d212},{144,0x8022acf9d2bc6},{144,0x8b3bd05a11ceb},{144,0x8c43b96c6d528},{144,0x91317214e2f38},{144,0x9cbae7fe805b3},{144,0xb44b361e06ee4},{144,0xb87f3a1f7efa4},{144,0xc688f6fadaee5},{144,0xc89bd02dca062},{144,0xd05244fe50669},{144,0xd510cc7db1eb9},{144,0xd764fa272ae91},{144,0xde6a215c321b3},{144,0xe0c6b1433a97f},{144,0xe48226f716b54},{144,0xe56f4891394d6},{144,0xec746fc6407f8},{144,0xf37996fb47b1b},{144,0xfa7ebe304ee3d},
{145,0xbab78cb07d72},{145,0xccfa547ba5b5},{145,0xecc411cb96f5},{145,0x10b894301cf56},{145,0x2d656a90d35d3},{145,0x31bf974a62451},{145,0x31e60525dd6a1},{145,0x358c2dfee0446},{145,0x39cde25187cb0},{145,0x4b5eb979d4cd9},{145,0x5e4dff2520c84},{145,0x6c13766ceafa0},{145,0x6e17ae0bbef8b},{145,0x73189da1f22c3},{145,0x7d8e767876ca0},{145,0x7ed891b924c33},{145,0x7edbd7c791e1e},{145,0x9037c2fbc35c9},{145,0xa8e263aa765e8},{145,0xb44b361e06ee4},{145,0xb87f3a1f7efa4},{145,0xc688f6fadaee5},{145,0xc89bd02dca062},{145,0xcac53ad76eba7},{145,0xd05244fe50669},{145,0xd764fa272ae91},{145,0xe0c6b1433a97f},{145,0xe56f4891394d6},{145,0xec746fc6407f8},{145,0xfa7ebe304ee3d},
{146,0xa04f64fbef35},{146,0xbab78cb07d72},{146,0xccfa547ba5b5},{146,0xecc411cb96f5},{146,0x2d656a90d35d3},{146,0x31bf974a62451},{146,0x32e820f547697},{146,0x39cde25187cb0},{146,0x3d4948bed912e},{146,0x4b5eb979d4cd9},{146,0x4f57dc7ec84a1},{146,0x4ffed998ce316},{146,0x5ccd7bed49a9f},{146,0x5e4dff2520c84},{146,0x6e17ae0bbef8b},{146,0x73189da1f22c3},{146,0x79268e388362a},{146,0x7ed891b924c33},{146,0x8b11fa28a1c40},{146,0x8f24bf427468c},{146,0x9037c2fbc35c9},{146,0xa8e263aa765e8},{146,0xac43f31995bcc},{146,0xbe4d154a6d553},{146,0xc688f6fadaee5},{146,0xc89bd02dca062},{146,0xd05244fe50669},{146,0xd764fa272ae91},{146,0xe099314f88f36},{146,0xec746fc6407f8},{146,0xf05671286d57e},{146,0xfa7ebe304ee3d},{146,0xfe3f1316beb01},
{147,0x1f4d0ff1038f},{147,0xbab78cb07d72},{147,0xccfa547ba5b5},{147,0xecc411cb96f5},{147,0xedaa83f043bd},{147,0x1d0aae9ef70bc},{147,0x1de246cd109c3},{147,0x2d656a90d35d3},{147,0x3dac56e20bea0},{147,0x40f26f5f55cdc},{147,0x4b5eb979d4cd9},{147,0x4f57dc7ec84a1},{147,0x597a38450596d},{147,0x5ccd7bed49a9f},{147,0x6e17ae0bbef8b},{147,0x73189da1f22c3},{147,0x79268e388362a},{147,0x82ef397e98557},{147,0x8f24bf427468c},{147,0x8fd510be8c585},{147,0x9037c2fbc35c9},{147,0x963261ab1626f},{147,0xa16e055c3f005},{147,0xa53ecbe48e8aa},{147,0xafba848b8d6aa},{147,0xc688f6fadaee5},{147,0xd05244fe50669},{147,0xdc7920ab1baf0},{147,0xddc021313f00b},{147,0xf05671286d57e},{147,0xf4f74b67a3131},{147,0xf57dce9a1bb06},{147,0xf77d513ea9331},{147,0xfa7ebe304ee3d},
{148,0xbab78cb07d72},{148,0xccfa547ba5b5},{148,0xceb618f06083},{148,0xecc411cb96f5},{148,0x1d0aae9ef70bc},{148,0x1de246cd109c3},{148,0x1ea6a3129a54f},{148,0x27d0ef0bb970a},{148,0x3ddb35c9a9d39},{148,0x3f25510a57ccc},{148,0x45d4c0f2d1219},{148,0x4dfd2b0396592},{148,0x597a38450596d},{148,0x6f96769eaa513},{148,0x73189da1f22c3},{148,0x822507db6a8fd},{148,0x8c2bb4c3405b6},{148,0x8f24bf427468c},{148,0x8fd510be8c585},{148,0x963261ab1626f},{148,0x98d2e42c012e7},{148,0xa16e055c3f005},{148,0xa53ecbe48e8aa},{148,0xb013aade6e5f7},{148,0xc688f6fadaee5},{148,0xc829daed8b2f0},{148,0xd05244fe50669},{148,0xdc7920ab1baf0},{148,0xddc021313f00b},{148,0xe667c8e9c4837},{148,0xf090df1e326db},{148,0xf4f74b67a3131},
{149,0x4c59434e3a3c},{149,0xbab78cb07d72},{149,0xecc411cb96f5},{149,0x1b10ec32800ce},{149,0x1d0aae9ef70bc},{149,0x22dc01ca1cb8c},{149,0x27d0ef0bb970a},{149,0x3ddb35c9a9d39},{149,0x3f25510a57ccc},{149,0x45d4c0f2d1219},{149,0x6e9ed346ab376},{149,0x73189da1f22c3},{149,0x80e37857aeb73},{149,0x822507db6a8fd},{149,0x8c2bb4c3405b6},{149,0x963261ab1626f},{149,0x98d2e42c012e7},{149,0x9d2074c420176},{149,0x9ff45dce7d5be},{149,0xa16e055c3f005},{149,0xb013aade6e5f7},{149,0xbbf22fbc8c4cd},{149,0xc032f7ee5f630},{149,0xc829daed8b2f0},{149,0xd05244fe50669},{149,0xdc68509b15ced},{149,0xdc7920ab1baf0},{149,0xddc021313f00b},{149,0xddc0651f01384},{149,0xe071920e416a2},{149,0xe667c8e9c4837},{149,0xe95bb64c7109e},{149,0xf090df1e326db},{149,0xf4f74b67a3131},{149,0xf57b67bc63fe1},
{150,0x4c59434e3a3c},{150,0x9c8eaa8ce898},{150,0x12039f3069585},{150,0x22dc01ca1cb8c},{150,0x27d0ef0bb970a},{150,0x3240488166ae0},{150,0x36b31ebc3cf08},{150,0x3c90d29c4c544},{150,0x45d4c0f2d1219},{150,0x477d44ff373c7},{150,0x482c67b77e5d7},{150,0x4afa4fb607727},{150,0x527cf1d26403b},{150,0x72b99b2361596},{150,0x76665f6b09e6f},{150,0x80e37857aeb73},{150,0x822507db6a8fd},{150,0x8c2bb4c3405b6},{150,0x8e72db14ac828},{150,0x912f0b372b413},{150,0xa16e055c3f005},{150,0xb44668629789a},{150,0xb44a02af2b152},{150,0xb619a019d6dd6},{150,0xbaed61dfa8e52},{150,0xc032f7ee5f630},{150,0xc829daed8b2f0},{150,0xd05244fe50669},{150,0xdc68509b15ced},{150,0xdc7920ab1baf0},{150,0xddc021313f00b},{150,0xddc0651f01384},{150,0xe071920e416a2},{150,0xe95bb64c7109e},{150,0xf4f74b67a3131},
{151,0x95feed117f1},{151,0x9c8eaa8ce898},{151,0x27d0ef0bb970a},{151,0x30f53d811a4b1},{151,0x36b31ebc3cf08},{151,0x45d4c0f2d1219},{151,0x4afa4fb607727},{151,0x4bcad59756256},{151,0x76665f6b09e6f},{151,0x80e37857aeb73},{151,0x822507db6a8fd},{151,0x8b1382f890c41},{151,0x8c2bb4c3405b6},{151,0x8d28bfd3fe895},{151,0x8e72db14ac828},{151,0x8fbcf6555a7bb},{151,0x92f644745eaf1},{151,0x9b35b81f010cc},{151,0xa16e055c3f005},{151,0xb619a019d6dd6},{151,0xc829daed8b2f0},{151,0xcd5d19d079445},{151,0xd05244fe50669},{151,0xdc7920ab1baf0},{151,0xf4f74b67a3131},{151,0xfa81250e06962},
{152,0x95feed117f1},{152,0x9c8eaa8ce898},{152,0x1a23c496f9be5},{152,0x23355feff1505},{152,0x2a619d2f6afe0},{152,0x30f53d811a4b1},{152,0x45d4c0f2d1219},{152,0x45f6f9421c8cb},{152,0x4afa4fb607727},{152,0x4bcad59756256},{152,0x624970a4b6ae4},{152,0x687421f5b0f2d},{152,0x6ac045e6aed02},{152,0x6b93023ca3e6f},{152,0x80e37857aeb73},{152,0x822507db6a8fd},{152,0x8a948952a296f},{152,0x8b1382f890c41},{152,0x8c2bb4c3405b6},{152,0x8e72db14ac828},{152,0x910711960874e},{152,0x92f644745eaf1},{152,0x977999d96e52d},{152,0xa2463d9741aff},{152,0xacc46749dccfe},{152,0xb619a019d6dd6},{152,0xbb5cc73663e1f},{152,0xc17db3c266277},{152,0xc829daed8b2f0},{152,0xcc098f2ff2c1e},{152,0xd05244fe50669},{152,0xd0d1b32e43235},{152,0xd763c6b84f0fe},
{153,0x8fe2015d0150},{153,0x9c8eaa8ce898},{153,0x1a23c496f9be5},{153,0x20c32fa6210c0},{153,0x23355feff1505},{153,0x2bbb27312efe4},{153,0x2ce648fe860fc},{153,0x30f53d811a4b1},{153,0x348510716138f},{153,0x45d4c0f2d1219},{153,0x45f6f9421c8cb},{153,0x4afa4fb607727},{153,0x4e7c99338915e},{153,0x551114591d6d4},{153,0x57247174410a3},{153,0x58ec5aec64812},{153,0x5bd2acca69b8f},{153,0x61f5c0fabc7d1},{153,0x63e557be3f635},{153,0x687421f5b0f2d},{153,0x6ac045e6aed02},{153,0x6b93023ca3e6f},{153,0x709658b08eccb},{153,0x815e56f617d93},{153,0x822507db6a8fd},{153,0x8422010f3cb90},{153,0x8a948952a296f},{153,0x8c2bb4c3405b6},{153,0x8e72db14ac828},{153,0x910711960874e},{153,0x92f644745eaf1},{153,0xa2463d9741aff},{153,0xa45eaa603a0eb},{153,0xacc46749dccfe},{153,0xb619a019d6dd6},{153,0xd05244fe50669},{153,0xd0d1b32e43235},{153,0xd763c6b84f0fe},{153,0xf193c7a19665b},{153,0xf64062ee1019b},
{154,0x8fe2015d0150},{154,0x9c8eaa8ce898},{154,0x131612e0004cc},{154,0x20c32fa6210c0},{154,0x23355feff1505},{154,0x236c051c44b7f},{154,0x28bdb80666acf},{154,0x28fd294e6b81b},{154,0x2ce648fe860fc},{154,0x2e4ae4eae702c},{154,0x30f53d811a4b1},{154,0x3354acffe253e},{154,0x3d2ce8b2192d4},{154,0x3d2fa1acaeab2},{154,0x45d4c0f2d1219},{154,0x4e7c99338915e},{154,0x57247174410a3},{154,0x5785a86cf84fd},{154,0x5fcc49b4f8fe8},{154,0x795db045fcae4},{154,0x79c3d27720db7},{154,0x7a7602b78d961},{154,0x822507db6a8fd},{154,0x8422010f3cb90},{154,0x8e72db14ac828},{154,0x92f644745eaf1},{154,0x9d2216b87ffb4},{154,0xa45eaa603a0eb},{154,0xacc46749dccfe},{154,0xc49b53b137646},{154,0xd05244fe50669},{154,0xd0d1b32e43235},{154,0xd1858af579bb0},{154,0xd763c6b84f0fe},{154,0xe02b1e4dbcf17},{154,0xedbe9808350d1},{154,0xf2dde2e2445ee},{154,0xf7d228322baf5},
{155,0x101931360a7f},{155,0x8fe2015d0150},{155,0x9c8eaa8ce898},{155,0x20c32fa6210c0},{155,0x23355feff1505},{155,0x236c051c44b7f},{155,0x28fd294e6b81b},{155,0x2e4ae4eae702c},{155,0x2f304049cc8ae},{155,0x30f53d811a4b1},{155,0x3354acffe253e},{155,0x41934d77659be},{155,0x45d4c0f2d1219},{155,0x4e7c99338915e},{155,0x74fa047b45bd8},{155,0x79c3d27720db7},{155,0x7ea05913545ca},{155,0x822507db6a8fd},{155,0x8422010f3cb90},{155,0x86b62395f6229},{155,0x86da52bb9ed25},{155,0x92f644745eaf1},{155,0xa50b0bbab8a10},{155,0xab7686312fc81},{155,0xacc46749dccfe},{155,0xae12769f66a2e},{155,0xb8d7e32be6396},{155,0xc49b53b137646},{155,0xd0d1b32e43235},{155,0xd1858af579bb0},{155,0xd763c6b84f0fe},{155,0xe02b1e4dbcf17},{155,0xedbe9808350d1},{155,0xf2dde2e2445ee},{155,0xf9506b25aa3cd},
{156,0x55744ca7e2e6},{156,0x8fe2015d0150},{156,0x23355feff1505},{156,0x25ae1c101a12b},{156,0x28fd294e6b81b},{156,0x2f304049cc8ae},{156,0x3354acffe253e},{156,0x41934d77659be},{156,0x45d4c0f2d1219},{156,0x4e7c99338915e},{156,0x59a920ac84a1f},{156,0x5b884b5a9b5bf},{156,0x6e35e1d925099},{156,0x79c3d27720db7},{156,0x8cd634052a68d},{156,0x90df35e29146b},{156,0x92f644745eaf1},{156,0xa812f204670bd},{156,0xab7686312fc81},{156,0xab7f10cd29a81},{156,0xacc46749dccfe},{156,0xae09bdc68ff7a},{156,0xb8d7e32be6396},{156,0xc49b53b137646},{156,0xd1858af579bb0},{156,0xf390efbd1fa3c},{156,0xf9506b25aa3cd},{156,0xfb997e41e82c2},{156,0xfc104fb5087aa},{156,0xfdb621c94fe6c},
{157,0x8fe2015d0150},{157,0x23355feff1505},{157,0x28fd294e6b81b},{157,0x3354acffe253e},{157,0x41934d77659be},{157,0x4e7c99338915e},{157,0x59a920ac84a1f},{157,0x76164815e446a},{157,0x79dd9e25a0c37},{157,0x8c7b8a17da55e},{157,0x8cd634052a68d},{157,0x8fe63c3cc48bf},{157,0x9490482970412},{157,0x962cff446f3fa},{157,0xa106c478545cd},{157,0xa669b6da5d08f},{157,0xa97cc5e9176f6},{157,0xab7686312fc81},{157,0xacc46749dccfe},{157,0xb31f17b95c96c},{157,0xb8d7e32be6396},{157,0xd1858af579bb0},{157,0xda38b0b6e732c},{157,0xdf3b80634b29d},{157,0xe8b72a893a869},{157,0xeae9177c67af7},{157,0xf390efbd1fa3c},{157,0xf7aca3ea5189e},{157,0xf7d228322baf5},{157,0xf9506b25aa3cd},{157,0xfb997e41e82c2},{157,0xfdb621c94fe6c},
{158,0x2488e401c4f1},{158,0x8fe2015d0150},{158,0x9d57b6ff1d48},{158,0x20e39770c7784},{158,0x23355feff1505},{158,0x412f93399572f},{158,0x41934d77659be},{158,0x4cf3c679f737c},{158,0x4e7c99338915e},{158,0x4f958fad1faa5},{158,0x59a920ac84a1f},{158,0x67076bc79ff8e},{158,0x736dc2b592bf3},{158,0x76164815e446a},{158,0x8cd634052a68d},{158,0x8e5e3820f77a6},{158,0x8fe63c3cc48bf},{158,0x977715a0e5400},{158,0x9c265d1b2d187},{158,0xa97cc5e9176f6},{158,0xacc46749dccfe},{158,0xb31f17b95c96c},{158,0xb8d7e32be6396},{158,0xd238859a172ce},{158,0xda38b0b6e732c},{158,0xe6a308b8bce1a},{158,0xe79dd65f64d0e},{158,0xe8b72a893a869},{158,0xeae9177c67af7},{158,0xf9506b25aa3cd},{158,0xfb997e41e82c2},{158,0xfdb621c94fe6c},
{159,0x2488e401c4f1},{159,0x9d57b6ff1d48},{159,0x11f3df74e15a8},{159,0x23355feff1505},{159,0x41934d77659be},{159,0x4e48ae566529b},{159,0x4e7c99338915e},{159,0x4f958fad1faa5},{159,0x544d5c9f82ca6},{159,0x59a920ac84a1f},{159,0x5a607ba27e088},{159,0x870f3bb62c7fe},{159,0x8cd634052a68d},{159,0x8e5e3820f77a6},{159,0x947e48902bc0a},{159,0x9c265d1b2d187},{159,0xa97cc5e9176f6},{159,0xacc46749dccfe},{159,0xb31f17b95c96c},{159,0xb8d7e32be6396},{159,0xbb6d3f8b8ea52},{159,0xbf7e7671f9fe6},{159,0xc98849f166b61},{159,0xce9fc63b15fa7},{159,0xda38b0b6e732c},{159,0xdcc46edbbed4f},{159,0xeae9177c67af7},{159,0xf2a9fc145a5bd},{159,0xf9506b25aa3cd},{159,0xfb997e41e82c2},{159,0xfdb621c94fe6c},
{160,0x304c23f123c3},{160,0x9d57b6ff1d48},{160,0x11f3df74e15a8},{160,0x2b24c7ddc9f01},{160,0x41934d77659be},{160,0x4af0550b74332},{160,0x4c19d9c874a77},{160,0x4e48ae566529b},{160,0x4e7c99338915e},{160,0x544d5c9f82ca6},{160,0x558eed83dd832},{160,0x59a920ac84a1f},{160,0x5a607ba27e088},{160,0x5ca141d431f06},{160,0x6565e15063c9f},{160,0x70c20751b3bc7},{160,0x75ddf66426616},{160,0x870f3bb62c7fe},{160,0x899c2f673220f},{160,0x8cd634052a68d},{160,0x9c265d1b2d187},{160,0xa97cc5e9176f6},{160,0xacc46749dccfe},{160,0xb31f17b95c96c},{160,0xb6216eddeb672},{160,0xb8d7e32be6396},{160,0xbb6d3f8b8ea52},{160,0xbf7e7671f9fe6},{160,0xda38b0b6e732c},{160,0xdcc46edbbed4f},{160,0xe81396f09a51d},{160,0xeae9177c67af7},{160,0xf2a9fc145a5bd},{160,0xfb997e41e82c2},
{161,0x304c23f123c3},{161,0x5335989375c3},{161,0x9d57b6ff1d48},{161,0xd394d28f5d32},{161,0x15b709f12b811},{161,0x1925a485f4842},{161,0x3ae3591f5b4d9},{161,0x4057f092e03b6},{161,0x41934d77659be},{161,0x433c88a16f9ec},{161,0x4e48ae566529b},{161,0x558eed83dd832},{161,0x579b8f986393b},{161,0x6565e15063c9f},{161,0x6aa49a3ceffdd},{161,0x7064735bae902},{161,0x70c20751b3bc7},{161,0x79ee2af0d95a6},{161,0x899c2f673220f},{161,0x9c265d1b2d187},{161,0xa07955355fc2c},{161,0xacc46749dccfe},{161,0xb044695b1f6ca},{161,0xb31f17b95c96c},{161,0xb8d7e32be6396},{161,0xc26ec3d233cf8},{161,0xd22a9a95475ee},{161,0xdb958d2e25c42},{161,0xdcc46edbbed4f},{161,0xe81396f09a51d},{161,0xeae9177c67af7},{161,0xf288c7b3a23f9},{161,0xf2a9fc145a5bd},{161,0xf5ec996ca63e3},
{162,0x7242d2c601b9},{162,0x9d57b6ff1d48},{162,0x15b709f12b811},{162,0x1b0172fa94f04},{162,0x41934d77659be},{162,0x433c88a16f9ec},{162,0x4781cd750d72c},{162,0x4e48ae566529b},{162,0x558eed83dd832},{162,0x58fbe0698a160},{162,0x5b5b098906a14},{162,0x5d0cf26588a09},{162,0x623fc44346b74},{162,0x63b39624865da},{162,0x69ecab133d94d},{162,0x6e000b029c99b},{162,0x899c2f673220f},{162,0xa7cadd0c95701},{162,0xacc46749dccfe},{162,0xb7c8885a5bcbc},{162,0xb8d7e32be6396},{162,0xc26ec3d233cf8},{162,0xc42cfa3c014a0},{162,0xca82860a46071},{162,0xcedbbb3c9dd72},{162,0xd22a9a95475ee},{162,0xdcc46edbbed4f},{162,0xeae9177c67af7},{162,0xf288c7b3a23f9},{162,0xf2a9fc145a5bd},{162,0xf5ec996ca63e3},{162,0xf8deaef95ef5b},{162,0xfc6139ece1f4d},
{163,0x9d57b6ff1d48},{163,0x15b709f12b811},{163,0x1b0172fa94f04},{163,0x41934d77659be},{163,0x433c88a16f9ec},{163,0x4781cd750d72c},{163,0x4d4796f077d8f},{163,0x4e48ae566529b},{163,0x5205c35bb34c8},{163,0x5546d747e3f93},{163,0x558eed83dd832},{163,0x5b5b098906a14},{163,0x5c584dcab0343},{163,0x5d0cf26588a09},{163,0x69ecab133d94d},{163,0x6e000b029c99b},{163,0x7ce714a05d3bb},{163,0x899c2f673220f},{163,0xa7cadd0c95701},{163,0xaa6ae147d2a22},{163,0xacc46749dccfe},{163,0xb3547192b98fc},{163,0xb691a09f4ad8a},{163,0xb7c8885a5bcbc},{163,0xb878b0c2ef0cf},{163,0xb8d7e32be6396},{163,0xc42cfa3c014a0},{163,0xcedbbb3c9dd72},{163,0xd93b44b3949e5},{163,0xdcc46edbbed4f},{163,0xde8903efd3f04},{163,0xe195af168e467},{163,0xeae9177c67af7},{163,0xf2a9fc145a5bd},{163,0xf8deaef95ef5b},{163,0xf952836280158},
{164,0x991fca28201d},{164,0x9d57b6ff1d48},{164,0x1111e24de24c9},{164,0x15b709f12b811},{164,0x167aa937bb256},{164,0x2405febea80ff},{164,0x2735238d6598b},{164,0x2af26e041ca04},{164,0x41934d77659be},{164,0x433c88a16f9ec},{164,0x4781cd750d72c},{164,0x5205c35bb34c8},{164,0x5546d747e3f93},{164,0x558eed83dd832},{164,0x69ecab133d94d},{164,0x7c18bcd4c0cd3},{164,0x7ce714a05d3bb},{164,0x7d6b1f83e3814},{164,0x826be7b90f085},{164,0x84f848a3a0a12},{164,0x855d53a8e0154},{164,0x899c2f673220f},{164,0x951b6262d23c3},{164,0xa7cadd0c95701},{164,0xacc46749dccfe},{164,0xb691a09f4ad8a},{164,0xb69e2c321bfe8},{164,0xb7c8885a5bcbc},{164,0xb8d7e32be6396},{164,0xbb1b480d531ed},{164,0xcedbbb3c9dd72},{164,0xd93b44b3949e5},{164,0xe2122e17fe26e},{164,0xe4171f4f8ef65},{164,0xe749d6a738013},{164,0xeae9177c67af7},{164,0xec033b40fea93},{164,0xf03c2c9e38759},{164,0xf2a9fc145a5bd},
{165,0x7bfa109e8952},{165,0x9d57b6ff1d48},{165,0x1111e24de24c9},{165,0x12d67761f767e},{165,0x15b709f12b811},{165,0x167aa937bb256},{165,0x2735238d6598b},{165,0x2af26e041ca04},{165,0x41934d77659be},{165,0x42a114c3e7253},{165,0x433c88a16f9ec},{165,0x4781cd750d72c},{165,0x5205c35bb34c8},{165,0x541c7b1fa42bf},{165,0x5546d747e3f93},{165,0x5868a97a4bdcd},{165,0x5ed6052613349},{165,0x663d0b0c5709f},{165,0x67a94631d0af6},{165,0x69ecab133d94d},{165,0x7ce714a05d3bb},{165,0x7d6b1f83e3814},{165,0x85f281bcfffbe},{165,0x899c2f673220f},{165,0x9283f9904859d},{165,0x951b6262d23c3},{165,0x985fc88b4e888},{165,0x9a0bf8b9d8b9b},{165,0xa235f25da5430},{165,0xa7cadd0c95701},{165,0xacc46749dccfe},{165,0xb691a09f4ad8a},{165,0xb69e2c321bfe8},{165,0xb7c8885a5bcbc},{165,0xb8d7e32be6396},{165,0xbacfb55418651},{165,0xbb6833cacbc75},{165,0xca071ef88a688},{165,0xcedbbb3c9dd72},{165,0xe749d6a738013},{165,0xeae9177c67af7},{165,0xec033b40fea93},{165,0xffe53f00c6fde},
{166,0x1a9c1c6580ce4},{166,0x1bad60c660f07},{166,0x245095c8b8034},{166,0x2af26e041ca04},{166,0x326e1d5ed55a3},{166,0x41934d77659be},{166,0x4781cd750d72c},{166,0x494f0f48c45e6},{166,0x4a5d77bbc56cb},{166,0x5205c35bb34c8},{166,0x541c7b1fa42bf},{166,0x54fc403dd405e},{166,0x5868a97a4bdcd},{166,0x5fc414b222307},{166,0x663d0b0c5709f},{166,0x71026c70befee},{166,0x7ce714a05d3bb},{166,0x7e385251c2f75},{166,0x85cd3637f8023},{166,0x899c2f673220f},{166,0x8ae574079904e},{166,0x9283f9904859d},{166,0x951b6262d23c3},{166,0x9a0bf8b9d8b9b},{166,0x9e731fb7b3d62},{166,0xa235f25da5430},{166,0xa7cadd0c95701},{166,0xb69e2c321bfe8},{166,0xb7c8885a5bcbc},{166,0xbacfb55418651},{166,0xbb6833cacbc75},{166,0xce491a9a24970},{166,0xcedbbb3c9dd72},{166,0xd369784a8b872},{166,0xe16f31a8f0fe6},{166,0xe749d6a738013},{166,0xf0fe500a6f363},
{167,0x688b94ed7a20},{167,0x12be2041a79fc},{167,0x245095c8b8034},{167,0x24e2a0f823a06},{167,0x2af26e041ca04},{167,0x513294bb04aad},{167,0x5205c35bb34c8},{167,0x55916e51f3ec8},{167,0x663d0b0c5709f},{167,0x71026c70befee},{167,0x79142a642d6e6},{167,0x7ce714a05d3bb},{167,0x7e385251c2f75},{167,0x85cd3637f8023},{167,0x85f281bcfffbe},{167,0x885e25f105a89},{167,0x899c2f673220f},{167,0x8ae574079904e},{167,0x90d29f6b9168a},{167,0x951b6262d23c3},{167,0xa235f25da5430},{167,0xa7cadd0c95701},{167,0xb65395280c0b3},{167,0xb678e0ad1404e},{167,0xb7c8885a5bcbc},{167,0xb9a39eb6b6ac0},{167,0xbacfb55418651},{167,0xcedbbb3c9dd72},{167,0xd4eb884896d70},{167,0xe6b4a893181a9},{167,0xe749d6a738013},{167,0xec033b40fea93},{167,0xf3456ff1e2d56},
{168,0x41e26e281e0a},{168,0x688b94ed7a20},{168,0x12be2041a79fc},{168,0x2475e14dbffce},{168,0x388c2e1859d63},{168,0x3cb910c5ca016},{168,0x54d6f4b8cc0c4},{168,0x663d0b0c5709f},{168,0x71026c70befee},{168,0x7ce714a05d3bb},{168,0x834b3c21644ff},{168,0x85cd3637f8023},{168,0x85d4b10934fc4},{168,0x85f281bcfffbe},{168,0x885e25f105a89},{168,0x899c2f673220f},{168,0x8ae574079904e},{168,0xa235f25da5430},{168,0xa7cadd0c95701},{168,0xb65395280c0b3},{168,0xb7c8885a5bcbc},{168,0xb9a39eb6b6ac0},{168,0xcee15baa26030},{168,0xd6818fb4fd71c},{168,0xdaf5e21dd8576},{168,0xe76f222c3ffad},{168,0xec033b40fea93},{168,0xed728c64385bc},{168,0xf2f183956691f},{168,0xf3456ff1e2d56},
{169,0x76e10e59d25},{169,0xbe81acba6051},{169,0x12be2041a79fc},{169,0x2475e14dbffce},{169,0x27ebe44bce003},{169,0x30ff8174b9e06},{169,0x3cb910c5ca016},{169,0x587b54b6936da},{169,0x59494fa0f69e0},{169,0x6143237ee101d},{169,0x663d0b0c5709f},{169,0x6d64bb3ae6041},{169,0x71026c70befee},{169,0x76da012fbffb9},{169,0x7ce714a05d3bb},{169,0x834b3c21644ff},{169,0x85cd3637f8023},{169,0x85d4b10934fc4},{169,0x8ae574079904e},{169,0xaa5748f10f02a},{169,0xac974750decdf},{169,0xb07fc85ecd08f},{169,0xb0b381de4b3b5},{169,0xb7c8885a5bcbc},{169,0xcee15baa26030},{169,0xcfc4657322aff},{169,0xd1e244f4ec773},{169,0xd6818fb4fd71c},{169,0xdaf5e21dd8576},{169,0xe76f222c3ffad},{169,0xec033b40fea93},{169,0xed728c64385bc},{169,0xf2f183956691f},{169,0xf3456ff1e2d56},{169,0xf36b6e633d037},
{170,0x44f5ed770c4e},{170,0x12be2041a79fc},{170,0x182efe0cb3010},{170,0x2421eb2e97347},{170,0x27ebe44bce003},{170,0x3d03a7cfd9f4b},{170,0x52697c76159df},{170,0x587b54b6936da},{170,0x6143237ee101d},{170,0x663d0b0c5709f},{170,0x6d64bb3ae6041},{170,0x71026c70befee},{170,0x749fd7fb5288c},{170,0x76da012fbffb9},{170,0x79ab9e7bf2fff},{170,0x7ce714a05d3bb},{170,0x85cd3637f8023},{170,0x85d4b10934fc4},{170,0x8ae574079904e},{170,0xa764accaa4d97},{170,0xaa5748f10f02a},{170,0xac974750decdf},{170,0xb07fc85ecd08f},{170,0xcee15baa26030},{170,0xcfc4657322aff},{170,0xd1e244f4ec773},{170,0xd72cdbb0192ca},{170,0xdaf5e21dd8576},{170,0xe76f222c3ffad},{170,0xf2f183956691f},
{171,0xd5d0dfdf5c5a},{171,0x12be2041a79fc},{171,0x182efe0cb3010},{171,0x2421eb2e97347},{171,0x274b4504c5c2a},{171,0x3d03a7cfd9f4b},{171,0x3d2ab060f1cf1},{171,0x42c9dca3cc828},{171,0x43aefc1e7d144},{171,0x451207f052e09},{171,0x4ed1ca24a0525},{171,0x52697c76159df},{171,0x54d6f4b8cc0c4},{171,0x587b54b6936da},{171,0x663d0b0c5709f},{171,0x67a8488b396cd},{171,0x7247ae95cb544},{171,0x76da012fbffb9},{171,0x7ce714a05d3bb},{171,0x85d4b10934fc4},{171,0x8ae574079904e},{171,0x9225e0b5810a9},{171,0x923964fe0cf7c},{171,0xa4467d130c818},{171,0xa764accaa4d97},{171,0xaa0cb1e6ff0f5},{171,0xbe2dd66200bef},{171,0xc6975a221717f},{171,0xcee15baa26030},{171,0xcfc4657322aff},{171,0xd4f31479f2b94},{171,0xdaf5e21dd8576},{171,0xe76f222c3ffad},
{172,0x681e94a7242a},{172,0xd11c4678b448},{172,0xd5d0dfdf5c5a},{172,0x12be2041a79fc},{172,0x182efe0cb3010},{172,0x1a5789996556b},{172,0x274b4504c5c2a},{172,0x2b368e30125a0},{172,0x343f0070262e9},{172,0x4288930882344},{172,0x42c9dca3cc828},{172,0x451207f052e09},{172,0x479b7cd8238ce},{172,0x4ed1ca24a0525},{172,0x561a3f333111a},{172,0x59f245a9b30ef},{172,0x5d08e280a7856},{172,0x663d0b0c5709f},{172,0x67a8488b396cd},{172,0x7247ae95cb544},{172,0x76da012fbffb9},{172,0x7ce714a05d3bb},{172,0x87867aaaef232},{172,0x88d59c26f942c},{172,0x9225e0b5810a9},{172,0xbe2dd66200bef},{172,0xc6975a221717f},{172,0xc6f91dea91b77},{172,0xcee15baa26030},{172,0xcfc4657322aff},{172,0xd4f31479f2b94},{172,0xdaf5e21dd8576},
{173,0x681e94a7242a},{173,0x9050061acbe3},{173,0x12be2041a79fc},{173,0x1efa5738dcfce},{173,0x274b4504c5c2a},{173,0x339fdef8c63fb},{173,0x343f0070262e9},{173,0x451207f052e09},{173,0x5e3abd8fdfc14},{173,0x67a8488b396cd},{173,0x7247ae95cb544},{173,0x76da012fbffb9},{173,0x7ce714a05d3bb},{173,0x88d59c26f942c},{173,0x8d1845e9bd430},{173,0xb3707abe12c45},{173,0xba0ae73c64cc0},{173,0xbe2dd66200bef},{173,0xc6f91dea91b77},{173,0xcb5ec1aeda33b},{173,0xcee15baa26030},{173,0xde0b59552c45d},{173,0xe113fd997305f},{173,0xe5b3f43a9fcfa},{173,0xe83d6922707bf},{173,0xea263c0cd5997},{173,0xf1e73b6bbc632},
{174,0x63cdced7941},{174,0x681e94a7242a},{174,0xca004c60cf13},{174,0x12be2041a79fc},{174,0x16add48fd03dd},{174,0x1d67dfdf33b92},{174,0x2049e4b815372},{174,0x274b4504c5c2a},{174,0x343f0070262e9},{174,0x451207f052e09},{174,0x4feb3315b2716},{174,0x5cd44a82948cf},{174,0x5e3abd8fdfc14},{174,0x638e55d1f8084},{174,0x7247ae95cb544},{174,0x7ce714a05d3bb},{174,0x8062864ac6f43},{174,0x88d59c26f942c},{174,0x9c40b525f560c},{174,0xaa0cb1e6ff0f5},{174,0xb3707abe12c45},{174,0xbcd4439526795},{174,0xbe2dd66200bef},{174,0xc92befccb5f59},{174,0xcb5ec1aeda33b},{174,0xd42a09376b2c3},{174,0xdbad1fc956349},
{175,0x681e94a7242a},{175,0x6ac0e2be7d0f},{175,0xca004c60cf13},{175,0x12be2041a79fc},{175,0x16add48fd03dd},{175,0x1d67dfdf33b92},{175,0x2049e4b815372},{175,0x241f7622ac5c8},{175,0x3146ecc301527},{175,0x3154a9abad089},{175,0x343f0070262e9},{175,0x5040d836ec9cb},{175,0x593c745785e1b},{175,0x5cd44a82948cf},{175,0x5e3abd8fdfc14},{175,0x638e55d1f8084},{175,0x7247ae95cb544},{175,0x79366b691376c},{175,0x88d59c26f942c},{175,0x941e43a19101f},{175,0x96a7b88961ae4},{175,0x99312d71325a9},{175,0xaebe965288e9d},{175,0xb06ed7141fd2b},{175,0xb3707abe12c45},{175,0xb8225f299c9ed},{175,0xbcd4439526795},{175,0xbe2dd66200bef},{175,0xc92befccb5f59},{175,0xca4558bdc814a},{175,0xd02d86fc90664},{175,0xd42a09376b2c3},{175,0xdbad1fc956349},{175,0xe0644b8af1331},
{176,0x10eb035350ce},{176,0xca004c60cf13},{176,0x12be2041a79fc},{176,0x300a3e901b021},{176,0x3154a9abad089},{176,0x38500d1cc1a66},{176,0x792d7a2c93393},{176,0x79366b691376c},{176,0x89f870024e50b},{176,0x8e59728c5f66e},{176,0x941e43a19101f},{176,0x96a7b88961ae4},{176,0xa3570110750bd},{176,0xb06ed7141fd2b},{176,0xb11788884dd71},{176,0xb3707abe12c45},{176,0xb49cf3d8f53af},{176,0xb5c96cf3d7b19},{176,0xb8225f299c9ed},{176,0xbe2dd66200bef},{176,0xc3ace3175b5a4},{176,0xc58e20f1fe7ed},{176,0xc92befccb5f59},{176,0xca4558bdc814a},{176,0xceaafc821090e},{176,0xd02d86fc90664},{176,0xdacced07224db},{176,0xdbad1fc956349},{176,0xe0644b8af1331},{176,0xe56c5311b4352},{176,0xf52455778ad01},{176,0xf79a726447225},
{177,0x12be2041a79fc},{177,0x2c4cf8ea6b6ec},{177,0x2e086ed876ab6},{177,0x300a3e901b021},{177,0x3154a9abad089},{177,0x33877b8dd146b},{177,0x63ea966d14380},{177,0x685c5de61a84e},{177,0x771c0a790de08},{177,0x7b3256a8012ac},{177,0x7d404cbc317f1},{177,0x8e59728c5f66e},{177,0x94778e07fa157},{177,0x96a7b88961ae4},{177,0xa3570110750bd},{177,0xaa6d4cfaf4b6e},{177,0xb04f54dcdaaff},{177,0xb3707abe12c45},{177,0xb49cf3d8f53af},{177,0xb5c96cf3d7b19},{177,0xbe2dd66200bef},{177,0xc92befccb5f59},{177,0xd02d86fc90664},{177,0xd245372d55f90},{177,0xd9a915ecc5c78},{177,0xdacced07224db},{177,0xdbad1fc956349},{177,0xe07b27dd78b13},{177,0xe2c36bb3d5dfa},{177,0xe56c5311b4352},{177,0xfabbbd9ad7ae2},
{178,0x247e2bc9b3643},{178,0x2c4cf8ea6b6ec},{178,0x2e086ed876ab6},{178,0x300a3e901b021},{178,0x3154a9abad089},{178,0x324e8303968a9},{178,0x3293b377ebae6},{178,0x34c598ac27942},{178,0x354c30e828f9b},{178,0x574a7b33ef43d},{178,0x5ace387c1a0fc},{178,0x63ea966d14380},{178,0x7e59b5ad439e2},{178,0x8e59728c5f66e},{178,0x94778e07fa157},{178,0x96a7b88961ae4},{178,0xa3570110750bd},{178,0xa46bc2e1c99b1},{178,0xaa6d4cfaf4b6e},{178,0xb04f54dcdaaff},{178,0xb406b74b83ffa},{178,0xb49cf3d8f53af},{178,0xb533306666764},{178,0xb5c96cf3d7b19},{178,0xbe2dd66200bef},{178,0xc8b1bb121cae3},{178,0xc92befccb5f59},{178,0xd02d86fc90664},{178,0xd245372d55f90},{178,0xd9a915ecc5c78},{178,0xdbad1fc956349},{178,0xe56c5311b4352},{178,0xfabbbd9ad7ae2},
{179,0xb5ed8236acd5},{179,0x128d2f4db1a2d},{179,0x1a8be8307d3e7},{179,0x247e2bc9b3643},{179,0x2c4cf8ea6b6ec},{179,0x2e086ed876ab6},{179,0x300a3e901b021},{179,0x3154a9abad089},{179,0x3293b377ebae6},{179,0x354c30e828f9b},{179,0x444f926fce263},{179,0x649db600a6ae5},{179,0x656d9e86abf73},{179,0x6c63903be41dd},{179,0x79bd03a514dc5},{179,0x7c5dfcd11bd82},{179,0x7e59b5ad439e2},{179,0x8015a5c984cc6},{179,0x83d8c2629e397},{179,0x96a7b88961ae4},{179,0xa3570110750bd},{179,0xa46bc2e1c99b1},{179,0xaa6d4cfaf4b6e},{179,0xb04f54dcdaaff},{179,0xb49cf3d8f53af},{179,0xb4e8121fadd89},{179,0xb533306666764},{179,0xbe2dd66200bef},{179,0xc8b1bb121cae3},{179,0xc92befccb5f59},{179,0xe56c5311b4352},{179,0xfabbbd9ad7ae2},
{180,0xb5ed8236acd5},{180,0x128d2f4db1a2d},{180,0x1a8be8307d3e7},{180,0x247e2bc9b3643},{180,0x2c4cf8ea6b6ec},{180,0x2e086ed876ab6},{180,0x3293b377ebae6},{180,0x3ad21e0dbd976},{180,0x444f926fce263},{180,0x479b4606143b0},{180,0x47e6644cccd8b},{180,0x4ed5d2fb234eb},{180,0x57849a469eeb0},{180,0x656d9e86abf73},{180,0x685d82d7d930e},{180,0x6a4563f810617},{180,0x6c63903be41dd},{180,0x79bd03a514dc5},{180,0x7c5dfcd11bd82},{180,0x954179623cc1a},{180,0x96a7b88961ae4},{180,0x9bf56d038acda},{180,0xa1034c624f7c3},{180,0xa46bc2e1c99b1},{180,0xaa6d4cfaf4b6e},{180,0xb04f54dcdaaff},{180,0xb4e8121fadd89},{180,0xbb8cdd35f9c32},{180,0xbc02728b0950a},{180,0xbe2dd66200bef},{180,0xc8b1bb121cae3},{180,0xdd404181e9324},{180,0xe0663fc076b04},{180,0xfabbbd9ad7ae2},{180,0xfb310b330968b},
{181,0x15c7330c09c67},{181,0x19e841fd57699},{181,0x1a8be8307d3e7},{181,0x1f7329d89e0a0},{181,0x2c4cf8ea6b6ec},{181,0x3293b377ebae6},{181,0x3ad21e0dbd976},{181,0x3ffcc35b949ad},{181,0x444f926fce263},{181,0x656d9e86abf73},{181,0x774b13017a7f8},{181,0x77603725064a7},{181,0x78260c1c37a56},{181,0x8aab8f95e0c70},{181,0x8ade79b1c3539},{181,0x8de5fd0367f2c},{181,0x926e076276dad},{181,0x9bf56d038acda},{181,0xa8818cee05114},{181,0xaa6d4cfaf4b6e},{181,0xb04f54dcdaaff},{181,0xbe2dd66200bef},{181,0xc273755fa1262},{181,0xc8b1bb121cae3},{181,0xd5c03007f20c5},{181,0xe0663fc076b04},{181,0xfabbbd9ad7ae2},{181,0xfb6edd2e6a247},
{182,0xa716447491d},{182,0xd77daffaa694},{182,0x10a9c1b28ece9},{182,0x10f4dff9476c4},{182,0x113ffe400009e},{182,0x118b1c86b8a79},{182,0x19e841fd57699},{182,0x1f7329d89e0a0},{182,0x26bdcc588a5ab},{182,0x2c4cf8ea6b6ec},{182,0x3293b377ebae6},{182,0x3ad21e0dbd976},{182,0x3ffcc35b949ad},{182,0x52b530f120490},{182,0x54ef633cb316f},{182,0x5cc68c9eace2a},{182,0x5d197af6e9b0c},{182,0x656d9e86abf73},{182,0x77603725064a7},{182,0x78260c1c37a56},{182,0x8ade79b1c3539},{182,0x8de5fd0367f2c},{182,0x8ff6847c0ec45},{182,0x99b8a9e2632b8},{182,0x9bf56d038acda},{182,0x9d96e7474f01c},{182,0xbb7c75b2262ee},{182,0xbe2dd66200bef},{182,0xfabbbd9ad7ae2},
{183,0xc07bb902dd3},{183,0xf322a50f3ba5},{183,0x10a9c1b28ece9},{183,0x10f4dff9476c4},{183,0x113ffe400009e},{183,0x1221591429e2e},{183,0x1398f075c4f72},{183,0x19e841fd57699},{183,0x1f7329d89e0a0},{183,0x2c4cf8ea6b6ec},{183,0x3ad21e0dbd976},{183,0x54ef633cb316f},{183,0x5afcb3f6d7bd4},{183,0x5c95e9dd809ac},{183,0x656d9e86abf73},{183,0x757fbbfd28d1c},{183,0x78260c1c37a56},{183,0x7b2749dff1e32},{183,0x8ade79b1c3539},{183,0x8ff6847c0ec45},{183,0x91d46b66fb7a3},{183,0x996f4ff5eb226},{183,0x99b8a9e2632b8},{183,0x99ba6e3ca3c00},{183,0x9bf56d038acda},{183,0xabc1251cc2486},{183,0xbe2dd66200bef},{183,0xc0da91b022e28},{183,0xc5b2b0d53c746},{183,0xd53844ee47dd1},
{184,0x4ed06a5b62c5},{184,0xc42fb8dbd91c},{184,0xdcbf420977ce},{184,0x10a9c1b28ece9},{184,0x1221591429e2e},{184,0x1398f075c4f72},{184,0x1988295bc4b7d},{184,0x19e841fd57699},{184,0x1aeee55dcc5c9},{184,0x1f7329d89e0a0},{184,0x2c4cf8ea6b6ec},{184,0x54ef633cb316f},{184,0x5afcb3f6d7bd4},{184,0x5c95e9dd809ac},{184,0x656d9e86abf73},{184,0x757fbbfd28d1c},{184,0x77603725064a7},{184,0x78260c1c37a56},{184,0x79b7229407487},{184,0x7b2749dff1e32},{184,0x8443d8ddb7958},{184,0x8ff6847c0ec45},{184,0x9842d6db08abc},{184,0x99b8a9e2632b8},{184,0x99ba6e3ca3c00},{184,0x9bf56d038acda},{184,0xa64c3e09a713c},{184,0xaa7c9d830c326},{184,0xabc1251cc2486},{184,0xbe2dd66200bef},{184,0xcafda5bb6a71b},{184,0xd53844ee47dd1},{184,0xd6db69e745bc4},{184,0xe3364174ea4b1},{184,0xef88fd6c8ab99},{184,0xf3d82e9356287},
{185,0xc42fb8dbd91c},{185,0xdcbf420977ce},{185,0x10a9c1b28ece9},{185,0x1398f075c4f72},{185,0x17c57b6278464},{185,0x19e841fd57699},{185,0x1f7329d89e0a0},{185,0x30f0c415e28cc},{185,0x376bd29d05404},{185,0x3e0489db0f526},{185,0x479b7db90c684},{185,0x4874304065812},{185,0x54ef633cb316f},{185,0x553217f799475},{185,0x5afcb3f6d7bd4},{185,0x5c95e9dd809ac},{185,0x675342e85d2fb},{185,0x694c9b7a09414},{185,0x6b11feeb64d03},{185,0x6f662bbb99098},{185,0x7272f3dc60eda},{185,0x757fbbfd28d1c},{185,0x77603725064a7},{185,0x78260c1c37a56},{185,0x7b2749dff1e32},{185,0x8ff6847c0ec45},{185,0x926479549c5aa},{185,0x98027efd3ceef},{185,0x99b8a9e2632b8},{185,0x99ba6e3ca3c00},{185,0x9bf56d038acda},{185,0x9c12d258ceb10},{185,0xa1106324ab257},{185,0xa535a1a4c6cf3},{185,0xa64c3e09a713c},{185,0xb84a09e4d473e},{185,0xbe2dd66200bef},{185,0xd33e715bccfb4},{185,0xd53844ee47dd1},{185,0xd6db69e745bc4},{185,0xde42c481ae38c},{185,0xef88fd6c8ab99},{185,0xf3d82e9356287},
{186,0x49a044ac2708},{186,0xdcbf420977ce},{186,0x1398f075c4f72},{186,0x17c57b6278464},{186,0x20918b6931db1},{186,0x2abcd31930847},{186,0x30f0c415e28cc},{186,0x376bd29d05404},{186,0x3e0489db0f526},{186,0x446eee943d030},{186,0x479b7db90c684},{186,0x4d4d39dc47f69},{186,0x54ef633cb316f},{186,0x553217f799475},{186,0x56a9af59345b9},{186,0x5afcb3f6d7bd4},{186,0x5c95e9dd809ac},{186,0x694c9b7a09414},{186,0x6bde99deb93ef},{186,0x708532be323c1},{186,0x7272f3dc60eda},{186,0x74251bd231c70},{186,0x77603725064a7},{186,0x7b2749dff1e32},{186,0x8a6ff9e12a875},{186,0x98027efd3ceef},{186,0x99b8a9e2632b8},{186,0x99ba6e3ca3c00},{186,0xa64c3e09a713c},{186,0xb315c1aadfa82},{186,0xb71241dcc155a},{186,0xc5ce2f406b565},{186,0xd33e715bccfb4},{186,0xd53844ee47dd1},{186,0xd6db69e745bc4},{186,0xd8869cd5f7048},{186,0xdc0d5914ea8c2},{186,0xdccb2d2013247},{186,0xde42c481ae38c},{186,0xeb3f0a6b82b2b},{186,0xeb960f663cdae},{186,0xef88fd6c8ab99},{186,0xf80630b3212cc},{186,0xffcb23f365eaf},
{187,0x49a044ac2708},{187,0xa2befb66c273},{187,0xc42fb8dbd91c},{187,0xca962d08557c},{187,0xdcbf420977ce},{187,0x35214fe77ca96},{187,0x3e0489db0f526},{187,0x42c3302999930},{187,0x4f53ba712cf63},{187,0x54ef633cb316f},{187,0x56a9af59345b9},{187,0x5fea33b2b5e5d},{187,0x6bde99deb93ef},{187,0x7272f3dc60eda},{187,0x78320ecaec0dd},{187,0x788c841df0b5e},{187,0x7b2749dff1e32},{187,0x880d446ade4a5},{187,0x8a6ff9e12a875},{187,0x926479549c5aa},{187,0x99ba6e3ca3c00},{187,0x9b850685e124b},{187,0xa05d541553f9f},{187,0xa64c3e09a713c},{187,0xb71241dcc155a},{187,0xbb42cdae5b724},{187,0xc5ce2f406b565},{187,0xca0c8185f7eee},{187,0xd53844ee47dd1},{187,0xd57538380bbf1},{187,0xd6db69e745bc4},{187,0xd7d76946b7817},{187,0xd8869cd5f7048},{187,0xdccb2d2013247},{187,0xe7428a39a1053},{187,0xec22a409779f1},{187,0xef88fd6c8ab99},{187,0xf80630b3212cc},{187,0xfdf778010e60e},{187,0xfe538c91cad6b},
{188,0x49a044ac2708},{188,0xc42fb8dbd91c},{188,0xdcbf420977ce},{188,0x1a746167ce55d},{188,0x2dcb5aff7543f},{188,0x3479b401de5e6},{188,0x3e0489db0f526},{188,0x42c3302999930},{188,0x4f53ba712cf63},{188,0x54ef633cb316f},{188,0x56b1b12301f68},{188,0x5a0cb2d621cca},{188,0x6bec3ad347b5e},{188,0x70dc19e2e4a86},{188,0x70ec8fcbfcfb9},{188,0x7272f3dc60eda},{188,0x78320ecaec0dd},{188,0x7b2749dff1e32},{188,0x880d446ade4a5},{188,0x8a6ff9e12a875},{188,0x8b6fbb915411c},{188,0x926479549c5aa},{188,0x99ba6e3ca3c00},{188,0x9a913c507ee17},{188,0x9b850685e124b},{188,0xa05d541553f9f},{188,0xb3ecd8c6540cd},{188,0xb71241dcc155a},{188,0xbb42cdae5b724},{188,0xbcff0f73c57f6},{188,0xd53844ee47dd1},{188,0xd57538380bbf1},{188,0xd6db69e745bc4},{188,0xdba0d4d3de364},{188,0xef88fd6c8ab99},{188,0xf6fd97a9c3714},{188,0xf80630b3212cc},{188,0xfdf778010e60e},
{189,0xc42fb8dbd91c},{189,0x1a746167ce55d},{189,0x24c8cbb72c1bd},{189,0x27e6d844fc5be},{189,0x2ae9bad10ce37},{189,0x3cdc1779ef996},{189,0x42c3302999930},{189,0x43f9438d76485},{189,0x4c721a42c495b},{189,0x54ef633cb316f},{189,0x56b1b12301f68},{189,0x6bec3ad347b5e},{189,0x70ec8fcbfcfb9},{189,0x7272f3dc60eda},{189,0x7b2749dff1e32},{189,0x802c786fe4703},{189,0x834b82b8a2fa7},{189,0x880d446ade4a5},{189,0x8a6ff9e12a875},{189,0x979c26fc7c7d8},{189,0x97b901a813368},{189,0x99ba6e3ca3c00},{189,0xb71241dcc155a},{189,0xd53844ee47dd1},{189,0xdba0d4d3de364},{189,0xdbda325815707},{189,0xf28bc93d2c5ae},{189,0xf446dce228b66},{189,0xf6fd97a9c3714},{189,0xf80630b3212cc},{189,0xfb580a880a80a},
{190,0xb2bb16695b1a},{190,0x15c73b49876f8},{190,0x1a746167ce55d},{190,0x27e6d844fc5be},{190,0x2ae9bad10ce37},{190,0x2c7f16b8af0c1},{190,0x2f86cc96f0163},{190,0x33eced3c5f291},{190,0x3cdc1779ef996},{190,0x42c3302999930},{190,0x4edff21038a82},{190,0x546429269ba7a},{190,0x574acabde75ef},{190,0x5a462d91c6ab3},{190,0x62521486d851c},{190,0x6bec3ad347b5e},{190,0x7129b8fe527ac},{190,0x7726ec0fbf3a0},{190,0x7b2749dff1e32},{190,0x8269a3e15bd3b},{190,0x8515fac23a121},{190,0x880d446ade4a5},{190,0x8a6ff9e12a875},{190,0x97b901a813368},{190,0x99ba6e3ca3c00},{190,0xa193677930af4},{190,0xa3f203531385f},{190,0xbd48d255a4281},{190,0xc57a62c4cb382},{190,0xd122c7f26f2e5},{190,0xd53844ee47dd1},{190,0xd707ecc342637},{190,0xe2451d3f77c84},{190,0xe39b721d0d889},{190,0xe702c23682ea6},{190,0xf446dce228b66},{190,0xf6fd97a9c3714},
{191,0x733f6aa75e93},{191,0xb2bb16695b1a},{191,0xcb57ff4689e4},{191,0x1509c08cf9276},{191,0x1a746167ce55d},{191,0x2c7f16b8af0c1},{191,0x36921ffeb0d9a},{191,0x3cdc1779ef996},{191,0x3f58e4fdec6f4},{191,0x4edff21038a82},{191,0x4f53ba712cf63},{191,0x546429269ba7a},{191,0x5a462d91c6ab3},{191,0x602831fcf1aec},{191,0x6e93f5da2824b},{191,0x7129b8fe527ac},{191,0x722b4bd165212},{191,0x7726ec0fbf3a0},{191,0x8515fac23a121},{191,0x880d446ade4a5},{191,0xa193677930af4},{191,0xa3dc661b6757b},{191,0xb2846fd94be0a},{191,0xb5d45b43f5e97},{191,0xb7e4c09f635f4},{191,0xb81161e939c10},{191,0xbd48d255a4281},{191,0xbfdb4c39be641},{191,0xc57a62c4cb382},{191,0xd53844ee47dd1},{191,0xd707ecc342637},{191,0xe2451d3f77c84},{191,0xe39b721d0d889},{191,0xe6436a2d2899d},{191,0xe702c23682ea6},{191,0xf446dce228b66},{191,0xf6fd97a9c3714},
{192,0x9ac5b24f4ce},{192,0xb2bb16695b1a},{192,0x1509c08cf9276},{192,0x1a746167ce55d},{192,0x250a9fa700cd7},{192,0x31fb8dc01ae72},{192,0x3cdc1779ef996},{192,0x3f58e4fdec6f4},{192,0x4362a2253adba},{192,0x4f53ba712cf63},{192,0x5a462d91c6ab3},{192,0x66ec4e9960984},{192,0x6d27d6d0c65cf},{192,0x6d4211a8e22fc},{192,0x7129b8fe527ac},{192,0x722b4bd165212},{192,0x77b043a99dbd0},{192,0x7f443acaee8ae},{192,0x8515fac23a121},{192,0x880d446ade4a5},{192,0x89df59a54ae83},{192,0x8eca711a99e20},{192,0x97262ffe48ef8},{192,0x9b2b3e53d7f04},{192,0x9ef0cfd76a19e},{192,0xa193677930af4},{192,0xa3dc661b6757b},{192,0xb7e4c09f635f4},{192,0xbd48d255a4281},{192,0xbfdb4c39be641},{192,0xca97bb9c0f5e3},{192,0xcaed222dacb2d},{192,0xe6436a2d2899d},{192,0xe702c23682ea6},
{193,0x9ac5b24f4ce},{193,0xa883e1182e6a},{193,0xb2bb16695b1a},{193,0x216a8dc63735b},{193,0x2b0f2255b3cbf},{193,0x4125e91aedab9},{193,0x5a462d91c6ab3},{193,0x5c3fc328d9561},{193,0x66ec4e9960984},{193,0x6d4211a8e22fc},{193,0x7129b8fe527ac},{193,0x7b35936d56e27},{193,0x7db9c3c40c1f2},{193,0x8515fac23a121},{193,0x880d446ade4a5},{193,0x89df59a54ae83},{193,0x8eca711a99e20},{193,0x8f7ed8414d2ca},{193,0x9b2b3e53d7f04},{193,0xa193677930af4},{193,0xbae699a88e663},{193,0xbd48d255a4281},{193,0xca38f350b22de},{193,0xccb7e6b081b90},{193,0xdd3ac281e882a},{193,0xe702c23682ea6},{193,0xe93506ee3a67a},{193,0xed589c08fa044},
{194,0xa75f770bc557},{194,0xb2bb16695b1a},{194,0x12eef8639e1b8},{194,0x17bbbc2c4f560},{194,0x2f5e0f8aabe86},{194,0x2f76606153445},{194,0x3165633977bc9},{194,0x3e59c4f17403e},{194,0x4472ba9550e86},{194,0x5a462d91c6ab3},{194,0x5c3fc328d9561},{194,0x6d4211a8e22fc},{194,0x6e93f5da2824b},{194,0x7129b8fe527ac},{194,0x7b35936d56e27},{194,0x7d3ce71c22b6b},{194,0x8436a7fe5d100},{194,0x8515fac23a121},{194,0xa193677930af4},{194,0xbd48d255a4281},{194,0xbdb0e0853c057},{194,0xc10ed9f80ac69},{194,0xc9146afecdb0c},{194,0xca38f350b22de},{194,0xccb7e6b081b90},{194,0xd299eb1bacbc9},{194,0xe702c23682ea6},{194,0xf18267652d22b},{194,0xf68fdb845f5ed},{194,0xfdf7588bfdcaa},
{195,0x2f8619fef9ff},{195,0xa75f770bc557},{195,0xcc73d9526172},{195,0x17bbbc2c4f560},{195,0x1e1c4eccd3a28},{195,0x27cf35fdf34d0},{195,0x284aacd8b8384},{195,0x3165633977bc9},{195,0x3620f849a21ab},{195,0x3e59c4f17403e},{195,0x4472ba9550e86},{195,0x51a4678d343bd},{195,0x564d7b53674f8},{195,0x5a462d91c6ab3},{195,0x5f7ab2fe1e1e4},{195,0x6d4211a8e22fc},{195,0x6e93f5da2824b},{195,0x7129b8fe527ac},{195,0x78bc5cd39f9fe},{195,0x7afe2241b03f6},{195,0x7b35936d56e27},{195,0x88d46db29a21d},{195,0x96700c56b9b3e},{195,0xa224ff361249a},{195,0xa3c81d154376d},{195,0xb52fd503d5aac},{195,0xbd48d255a4281},{195,0xc505c3a136085},{195,0xc9146afecdb0c},{195,0xca38f350b22de},{195,0xca97b5d0559f8},{195,0xd299eb1bacbc9},{195,0xe702c23682ea6},{195,0xf18267652d22b},{195,0xf27d0d61405a8},{195,0xf68fdb845f5ed},
{196,0xa75f770bc557},{196,0xc7d4b1f8829a},{196,0xcc73d9526172},{196,0x17bbbc2c4f560},{196,0x1e1c4eccd3a28},{196,0x29d837c1409dd},{196,0x2e9f4798db259},{196,0x3165633977bc9},{196,0x3620f849a21ab},{196,0x3e59c4f17403e},{196,0x4472ba9550e86},{196,0x51a4678d343bd},{196,0x564d7b53674f8},{196,0x5a462d91c6ab3},{196,0x6ff6963552599},{196,0x7129b8fe527ac},{196,0x72ff373e40e7d},{196,0x78bc5cd39f9fe},{196,0x7afe2241b03f6},{196,0x7b35936d56e27},{196,0x8fb0f3291a802},{196,0x96700c56b9b3e},{196,0x9de0b767540d2},{196,0xa01dab8746756},{196,0xafe5c7f2ad78f},{196,0xb0bc7ecd3fbe2},{196,0xb26af551751bc},{196,0xb52fd503d5aac},{196,0xbd48d255a4281},{196,0xca38f350b22de},{196,0xdb88770bc57a4},{196,0xecbfe7cbe1a27},{196,0xf27d0d61405a8},{196,0xf85ecca96d3ea},
{197,0xa75f770bc557},{197,0xcbcf3ad95ae3},{197,0x17bbbc2c4f560},{197,0x29d837c1409dd},{197,0x2e173b60d01f3},{197,0x3165633977bc9},{197,0x3620f849a21ab},{197,0x3e59c4f17403e},{197,0x43d96f466f861},{197,0x4472ba9550e86},{197,0x44de46f98cf7c},{197,0x564d7b53674f8},{197,0x57aab67c85a26},{197,0x5a462d91c6ab3},{197,0x5ace39c9d1b19},{197,0x68c187605f190},{197,0x7129b8fe527ac},{197,0x72ff373e40e7d},{197,0x7b35936d56e27},{197,0x965869e700bcc},{197,0xa7db14443e6a7},{197,0xafe5c7f2ad78f},{197,0xb0bc7ecd3fbe2},{197,0xbfe596214ecd0},{197,0xca38f350b22de},{197,0xd144388667d78},{197,0xdb88770bc57a4},{197,0xe9eddbbb259b4},{197,0xf83a32f69f129},{197,0xf85ecca96d3ea},
{198,0xcbcf3ad95ae3},{198,0xe17efcd98e5c},{198,0x2e173b60d01f3},{198,0x2f30ad9d64f50},{198,0x3165633977bc9},{198,0x3620f849a21ab},{198,0x3e59c4f17403e},{198,0x43d96f466f861},{198,0x4472ba9550e86},{198,0x44de46f98cf7c},{198,0x564d7b53674f8},{198,0x5a462d91c6ab3},{198,0x5ace39c9d1b19},{198,0x68c187605f190},{198,0x72ff373e40e7d},{198,0x778b21df59e10},{198,0x81581533adb40},{198,0x968bdb6cd2c97},{198,0xa4aa2c32af8a7},{198,0xb0bc7ecd3fbe2},{198,0xb43c369bd4d65},{198,0xbc34ede47a35f},{198,0xbfe596214ecd0},{198,0xca38f350b22de},{198,0xcd9d03db8774a},{198,0xd144388667d78},{198,0xe25950111e13d},{198,0xe5c626e9a7491},{198,0xe6ac1f1ea18af},{198,0xe93f50d5cad09},{198,0xe9e1550132466},{198,0xe9eddbbb259b4},{198,0xf83a32f69f129},{198,0xf85ecca96d3ea},
{199,0xe17efcd98e5c},{199,0x109d1d2c60889},{199,0x1a7eab4f5ebec},{199,0x294ecd686ce5d},{199,0x297b1b6392eec},{199,0x3165633977bc9},{199,0x3620f849a21ab},{199,0x378e285cc8389},{199,0x4472ba9550e86},{199,0x44de46f98cf7c},{199,0x564d7b53674f8},{199,0x5a462d91c6ab3},{199,0x72ff373e40e7d},{199,0x778b21df59e10},{199,0x8b3d8dbb20709},{199,0x9423d0564ccf9},{199,0x968bdb6cd2c97},{199,0x9bf5f6b5c8233},{199,0x9e09d11e874c5},{199,0xa4aa2c32af8a7},{199,0xae70461fb9972},{199,0xb07ddd2b7f15c},{199,0xb0bc7ecd3fbe2},{199,0xb43c369bd4d65},{199,0xbc34ede47a35f},{199,0xbfe596214ecd0},{199,0xca38f350b22de},{199,0xcd552d4432acb},{199,0xe25950111e13d},{199,0xe6dc8285bd50c},{199,0xe93f50d5cad09},{199,0xe9e1550132466},{199,0xe9eddbbb259b4},{199,0xec42f7ad198ee},{199,0xf83a32f69f129},{199,0xf85ecca96d3ea},
{200,0x90d951009a02},{200,0xe17efcd98e5c},{200,0x15a777e9efce3},{200,0x1777b61049d2d},{200,0x1a7eab4f5ebec},{200,0x29354a675b6c6},{200,0x294ecd686ce5d},{200,0x297b1b6392eec},{200,0x3165633977bc9},{200,0x372cb12e8ff34},{200,0x378e285cc8389},{200,0x41ca7d7d19c88},{200,0x4472ba9550e86},{200,0x551767ef8a9a3},{200,0x564d7b53674f8},{200,0x5a462d91c6ab3},{200,0x72c1dda6738de},{200,0x72ff373e40e7d},{200,0x778b21df59e10},{200,0x8b3d8dbb20709},{200,0x94829c5cb36ff},{200,0x9707c9bb7b12c},{200,0x985ad921353ba},{200,0xa3b93dcfcd534},{200,0xae70461fb9972},{200,0xbfe596214ecd0},{200,0xc032e797bb14e},{200,0xcb22020a932f7},{200,0xcd552d4432acb},{200,0xd3553c8b2c54d},{200,0xd88abaeb37bf5},{200,0xe6dc8285bd50c},{200,0xe93f50d5cad09},{200,0xe9eddbbb259b4},{200,0xf45db4e99e8f7},{200,0xf83a32f69f129},{200,0xff3455d939fb3},
{201,0x90d951009a02},{201,0xb03737c6a7f0},{201,0xe17efcd98e5c},{201,0x12a931f1557ad},{201,0x16c13e5a63a2f},{201,0x1777b61049d2d},{201,0x1a7eab4f5ebec},{201,0x29354a675b6c6},{201,0x2edb3d9dbc2a5},{201,0x3053e64911710},{201,0x41ca7d7d19c88},{201,0x42300b14bd484},{201,0x4472ba9550e86},{201,0x528fdcc489fc4},{201,0x551767ef8a9a3},{201,0x5a462d91c6ab3},{201,0x6e66c9db43120},{201,0x72c1dda6738de},{201,0x778b21df59e10},{201,0x8fb0248fb675a},{201,0x9707c9bb7b12c},{201,0xad95641ba70b0},{201,0xbfe596214ecd0},{201,0xc2f1e93876df4},{201,0xd4b09df92718a},{201,0xd88abaeb37bf5},{201,0xd8fa8953a4867},{201,0xdd960e178af8e},{201,0xe1ae1a8099210},{201,0xe6dc8285bd50c},{201,0xe93f50d5cad09},{201,0xe9eddbbb259b4},{201,0xf52e4a2042e23},{201,0xf83a32f69f129},{201,0xfb367fcf1d11b},{201,0xff3455d939fb3},
{202,0x584a3ac65a9f},{202,0x76325b652821},{202,0xb03737c6a7f0},{202,0x12a931f1557ad},{202,0x1a7eab4f5ebec},{202,0x1def3e2c5873a},{202,0x2edb3d9dbc2a5},{202,0x2f78b2f257d39},{202,0x3053e64911710},{202,0x33c04bbbd0b22},{202,0x42300b14bd484},{202,0x4472ba9550e86},{202,0x500aaf65c2597},{202,0x551767ef8a9a3},{202,0x5a462d91c6ab3},{202,0x657484cedca60},{202,0x6cd993c96d411},{202,0x6e7fd3571b438},{202,0x73057a9b3a924},{202,0x778b21df59e10},{202,0x877db8a8815ac},{202,0x8fb0248fb675a},{202,0x9707c9bb7b12c},{202,0x9f2b5c62aab56},{202,0xba061afdf92b0},{202,0xca48e12fe2511},{202,0xd4b09df92718a},{202,0xdb6d56beb7973},{202,0xdd960e178af8e},{202,0xf52e4a2042e23},{202,0xf83a32f69f129},{202,0xfb367fcf1d11b},{202,0xfea2e541dc52d},{202,0xff3455d939fb3},
{203,0x584a3ac65a9f},{203,0x76325b652821},{203,0xb03737c6a7f0},{203,0x12a931f1557ad},{203,0x1904ed387d462},{203,0x1a7eab4f5ebec},{203,0x2f78b2f257d39},{203,0x3053e64911710},{203,0x320a190271119},{203,0x347b56a25e653},{203,0x37914a0b450dc},{203,0x42300b14bd484},{203,0x4370cc8bdc2b6},{203,0x4472ba9550e86},{203,0x551767ef8a9a3},{203,0x580b4aa6c248d},{203,0x5a462d91c6ab3},{203,0x657484cedca60},{203,0x6cd993c96d411},{203,0x73057a9b3a924},{203,0x8b14b8917bc31},{203,0x8fb0248fb675a},{203,0x965ac4cc7ebbe},{203,0x9707c9bb7b12c},{203,0xad54e0c42e507},{203,0xba061afdf92b0},{203,0xbfdbf5cf9036a},{203,0xdb6d56beb7973},{203,0xe8cea840d1e57},{203,0xf52e4a2042e23},{203,0xf83a32f69f129},{203,0xfb367fcf1d11b},{203,0xfcecb2887cb24},{203,0xfd7b3ba9d9ec5},
{204,0x46f5e4a5d451},{204,0xb03737c6a7f0},{204,0xc7d5e914866e},{204,0x1301f03a410e1},{204,0x19d731c34a4b8},{204,0x1a7eab4f5ebec},{204,0x3053e64911710},{204,0x320a190271119},{204,0x347b56a25e653},{204,0x36a40ee603dca},{204,0x37914a0b450dc},{204,0x4171e186cdb6a},{204,0x42300b14bd484},{204,0x4472ba9550e86},{204,0x551767ef8a9a3},{204,0x580b4aa6c248d},{204,0x5a462d91c6ab3},{204,0x5d09615677b8f},{204,0x5dfc87a56fdff},{204,0x6d3c4b23ab9f1},{204,0x73057a9b3a924},{204,0x7c10c923792fc},{204,0x965ac4cc7ebbe},{204,0x9707c9bb7b12c},{204,0x99bc50b2bcf00},{204,0xa18a6ae94c485},{204,0xa27f7f0e4fd8f},{204,0xa30a2a5767c55},{204,0xba061afdf92b0},{204,0xbf7b9d9cce00d},{204,0xda801aaea4505},{204,0xe8cea840d1e57},{204,0xeb923be455b4b},{204,0xed1e1eca87e08},{204,0xf0fcecbf44f07},{204,0xf83a32f69f129},{204,0xfb367fcf1d11b},{204,0xfcecb2887cb24},{204,0xfd7b3ba9d9ec5},
{205,0x6355f7529842},{205,0x724a587ad6f1},{205,0xafa259f4cea6},{205,0xc7d5e914866e},{205,0x1301f03a410e1},{205,0x16a6ed6c77089},{205,0x19d731c34a4b8},{205,0x1a7eab4f5ebec},{205,0x2d0cd0905fb4a},{205,0x3053e64911710},{205,0x36a40ee603dca},{205,0x4171e186cdb6a},{205,0x42300b14bd484},{205,0x4472ba9550e86},{205,0x551767ef8a9a3},{205,0x580b4aa6c248d},{205,0x5a462d91c6ab3},{205,0x656b0db76e908},{205,0x68fc190053d64},{205,0x70c2a6f92aeae},{205,0x73057a9b3a924},{205,0x785514f1fe83d},{205,0x7c10c923792fc},{205,0x7de84c3d8979c},{205,0x92bc0dd9ec9a5},{205,0x965ac4cc7ebbe},{205,0x9707c9bb7b12c},{205,0x9a0cb1db8652c},{205,0xa30a2a5767c55},{205,0xba061afdf92b0},{205,0xbf7b9d9cce00d},{205,0xc0d348534a867},{205,0xc74a7be18ee73},{205,0xcc738e5442029},{205,0xd568d7416a878},{205,0xe95d26d2a1b17},{205,0xeb923be455b4b},{205,0xf0fcecbf44f07},{205,0xf83a32f69f129},{205,0xfb367fcf1d11b},{205,0xfbb72109f3d23},{205,0xfcecb2887cb24},
{206,0x38b9f8d4e39d},{206,0x6355f7529842},{206,0xafa259f4cea6},{206,0x1301f03a410e1},{206,0x1a7eab4f5ebec},{206,0x28b43de747aca},{206,0x2e1e06bb9c04a},{206,0x3053e64911710},{206,0x30c413995f0ce},{206,0x36a40ee603dca},{206,0x4171e186cdb6a},{206,0x41bd6227d94a8},{206,0x4e0bc460b3e4b},{206,0x5402115d5ac17},{206,0x551767ef8a9a3},{206,0x5a462d91c6ab3},{206,0x61b3caae6f384},{206,0x65304c124be1e},{206,0x70c2a6f92aeae},{206,0x73057a9b3a924},{206,0x7c10c923792fc},{206,0x7de84c3d8979c},{206,0x83129b88ea834},{206,0x88eeb69dca0d2},{206,0x965ac4cc7ebbe},{206,0x9707c9bb7b12c},{206,0xa30a2a5767c55},{206,0xa91bd5bb5d4d9},{206,0xc0d348534a867},{206,0xc74a7be18ee73},{206,0xca038b8b565ae},{206,0xd06b8bb4c663a},{206,0xdc02e51c4bdba},{206,0xe9fe662f8a889},{206,0xeb923be455b4b},{206,0xf0cbace4a0620},{206,0xf0fcecbf44f07},{206,0xf83a32f69f129},{206,0xfb367fcf1d11b},{206,0xfbb72109f3d23},{206,0xfbf175ff9e6ad},{206,0xffa8b9089dc32},
{207,0x14d7aa0900d4},{207,0x38b9f8d4e39d},{207,0xe47d207f892e},{207,0x2792d4163fd8f},{207,0x28b43de747aca},{207,0x2e1e06bb9c04a},{207,0x36a40ee603dca},{207,0x4ac2192daea97},{207,0x4ff8d813f33a1},{207,0x5402115d5ac17},{207,0x551767ef8a9a3},{207,0x62a1534ed3e5c},{207,0x65304c124be1e},{207,0x7c10c923792fc},{207,0x7de84c3d8979c},{207,0x903acfd8ce620},{207,0xa30a2a5767c55},{207,0xa91bd5bb5d4d9},{207,0xb3b9aab820bb3},{207,0xbcc60266a98e1},{207,0xbf7b9d9cce00d},{207,0xc0d348534a867},{207,0xc90d8eae15175},{207,0xd06b8bb4c663a},{207,0xe1eea0c0a300e},{207,0xe9fe662f8a889},{207,0xeb923be455b4b},{207,0xecafad59d7e5e},{207,0xf090b272dde65},{207,0xf0fcecbf44f07},{207,0xf482efed9fba4},{207,0xf7d42a94b2c9e},{207,0xf83a32f69f129},{207,0xfa370a4c95d75},{207,0xfb367fcf1d11b},{207,0xfbf175ff9e6ad},{207,0xffa8b9089dc32},
{208,0x38b9f8d4e39d},{208,0x839fc19dd47d},{208,0xe47d207f892e},{208,0x161feeba4af34},{208,0x17ad428200c08},{208,0x1db376fb4f8b6},{208,0x21ebc30118b68},{208,0x2e1e06bb9c04a},{208,0x36a40ee603dca},{208,0x3a6557f7f533d},{208,0x4ac2192daea97},{208,0x4ff8d813f33a1},{208,0x5402115d5ac17},{208,0x62a1534ed3e5c},{208,0x65304c124be1e},{208,0x785004b477a1c},{208,0x7c0747bd76fa1},{208,0x7c10c923792fc},{208,0x7de84c3d8979c},{208,0x878c29e93440b},{208,0x91a9de1fede14},{208,0x982e18f534051},{208,0x9fca26a0d83b1},{208,0xa383e3c30120c},{208,0xa91bd5bb5d4d9},{208,0xb3b9aab820bb3},{208,0xb61eda7a8d1ed},{208,0xb9f279dc15fcd},{208,0xbd6a7f6303160},{208,0xbf7b9d9cce00d},{208,0xe15debd81f170},{208,0xe1eea0c0a300e},{208,0xe789029aee2d5},{208,0xf0fcecbf44f07},{208,0xf482efed9fba4},{208,0xf83a32f69f129},{208,0xfa370a4c95d75},{208,0xfacc9a7563936},{208,0xfb367fcf1d11b},{208,0xfbf175ff9e6ad},
{209,0x38b9f8d4e39d},{209,0x839fc19dd47d},{209,0x1ea4ff85530f6},{209,0x21ebc30118b68},{209,0x2e1e06bb9c04a},{209,0x3dedd220e2edd},{209,0x4efe461248f32},{209,0x5268af31c8970},{209,0x5402115d5ac17},{209,0x5fe07685b9ef0},{209,0x6426f682f8def},{209,0x65304c124be1e},{209,0x6abda55d598d2},{209,0x6e07bf742b12b},{209,0x770f81580af78},{209,0x79e61bff197e4},{209,0x7c0747bd76fa1},{209,0x7c10c923792fc},{209,0x91a9de1fede14},{209,0x982e18f534051},{209,0xa383e3c30120c},{209,0xb9f279dc15fcd},{209,0xba20bd5a0b065},{209,0xbd6a7f6303160},{209,0xd635cf45d9a90},{209,0xe72d3f09264d8},{209,0xf0fcecbf44f07},{209,0xf246e52c3d86e},{209,0xf482efed9fba4},{209,0xfa370a4c95d75},{209,0xfb367fcf1d11b},{209,0xfbf175ff9e6ad},
{210,0x38b9f8d4e39d},{210,0x430c2d075c07},{210,0x839fc19dd47d},{210,0x17ad428200c08},{210,0x1ea4ff85530f6},{210,0x21ebc30118b68},{210,0x2cc345f4d1a8e},{210,0x2e1e06bb9c04a},{210,0x367f4c0ee43d4},{210,0x3b488d1444661},{210,0x4efe461248f32},{210,0x5268af31c8970},{210,0x5402115d5ac17},{210,0x5a5da05b654f1},{210,0x65304c124be1e},{210,0x66af7c5616b97},{210,0x6abda55d598d2},{210,0x6e07bf742b12b},{210,0x770f81580af78},{210,0x7af6497a64dbe},{210,0x7c0747bd76fa1},{210,0x7c10c923792fc},{210,0x8aa5a2e261291},{210,0x91a9de1fede14},{210,0x93c16254b09ff},{210,0xa383e3c30120c},{210,0xa9234c34a96c6},{210,0xbcc60266a98e1},{210,0xbf2cc5bce2e39},{210,0xc18f436c09b6e},{210,0xd07bbb64ae1b2},{210,0xe067afe67e714},{210,0xe0b025a97f7f4},{210,0xe72d3f09264d8},{210,0xf1a011d270ffc},{210,0xf482efed9fba4},{210,0xfa370a4c95d75},
{211,0x430c2d075c07},{211,0x15b564e273849},{211,0x17ad428200c08},{211,0x1ea4ff85530f6},{211,0x20f9de6219fe3},{211,0x21ebc30118b68},{211,0x2e1e06bb9c04a},{211,0x342bdca9b74fb},{211,0x38750489b0d4d},{211,0x41eaa5cbcf78a},{211,0x4efe461248f32},{211,0x594349e62d9ba},{211,0x5ba7ea68ddb01},{211,0x5d98932280f0a},{211,0x6587879ae1117},{211,0x66af7c5616b97},{211,0x6e07bf742b12b},{211,0x770f81580af78},{211,0x7c0747bd76fa1},{211,0x7c10c923792fc},{211,0x8aa5a2e261291},{211,0x969a429886fb2},{211,0x9c66a51210441},{211,0x9ecb4594c0587},{211,0xa383e3c30120c},{211,0xa9234c34a96c6},{211,0xabbb989f44b46},{211,0xb073435156486},{211,0xbbb40770fa57c},{211,0xbf2cc5bce2e39},{211,0xc1a4f7f92f708},{211,0xcf0d5286414aa},{211,0xe96f34638150e},{211,0xf1a011d270ffc},{211,0xfa370a4c95d75},
{212,0x430c2d075c07},{212,0xba376e2748c5},{212,0xd022c6214dac},{212,0x15b564e273849},{212,0x1c2e4fbd16881},{212,0x1cebb55ad72a8},{212,0x1ea4ff85530f6},{212,0x20f9de6219fe3},{212,0x2e1e06bb9c04a},{212,0x2e6774b9bdeac},{212,0x38750489b0d4d},{212,0x3aa2ead240d89},{212,0x3e21e20d7a749},{212,0x4efe461248f32},{212,0x5d98932280f0a},{212,0x61aec446ac520},{212,0x66af7c5616b97},{212,0x6bd799132a551},{212,0x6e07bf742b12b},{212,0x74e907164b2e3},{212,0x770f81580af78},{212,0x7c0747bd76fa1},{212,0x808e3b72c108b},{212,0x8c36f667c39f1},{212,0xa383e3c30120c},{212,0xa9234c34a96c6},{212,0xabbb989f44b46},{212,0xb073435156486},{212,0xbbb40770fa57c},{212,0xc1a4f7f92f708},{212,0xc6798c134138d},{212,0xc9a71ac130096},{212,0xd7debc17e064f},{212,0xd8699dcda26a7},{212,0xd9a284e5d0382},{212,0xdc4ef1231b501},{212,0xe5f03d2847b4e},{212,0xe96f34638150e},{212,0xec6b18987967c},{212,0xfa370a4c95d75},
{213,0x430c2d075c07},{213,0x5495f9b3ef12},{213,0xd022c6214dac},{213,0x102f8946c6244},{213,0x15b564e273849},{213,0x15d395f3b3f51},{213,0x1c2e4fbd16881},{213,0x1cebb55ad72a8},{213,0x2e1e06bb9c04a},{213,0x326745df192d0},{213,0x38750489b0d4d},{213,0x391c412250699},{213,0x4efe461248f32},{213,0x4f04fc748c716},{213,0x538d78ef0dad4},{213,0x55375e3b9a726},{213,0x66af7c5616b97},{213,0x6e07bf742b12b},{213,0x73ef706850a79},{213,0x74e907164b2e3},{213,0x770f81580af78},{213,0x7c0747bd76fa1},{213,0x808e3b72c108b},{213,0x841f1f129d4c9},{213,0x9acd11b809eb0},{213,0x9f05dbd457199},{213,0xa2d7313f5381b},{213,0xa383e3c30120c},{213,0xa9234c34a96c6},{213,0xabbb989f44b46},{213,0xb073435156486},{213,0xb37a4a02be3c9},{213,0xc4ba1075a46ad},{213,0xc6798c134138d},{213,0xcda3be6f7fd45},{213,0xd9a284e5d0382},{213,0xdc4ef1231b501},{213,0xe5f03d2847b4e},{213,0xf0db18b947652},{213,0xfa370a4c95d75},
{214,0x430c2d075c07},{214,0x6326e59e0b47},{214,0xd022c6214dac},{214,0xf8c76e51acf6},{214,0x15b564e273849},{214,0x19b3b32b6d7ae},{214,0x1cebb55ad72a8},{214,0x1ea681f963150},{214,0x27766916f229b},{214,0x2e1e06bb9c04a},{214,0x38750489b0d4d},{214,0x391c412250699},{214,0x402aa32007b38},{214,0x538d78ef0dad4},{214,0x5d98932280f0a},{214,0x74e907164b2e3},{214,0x77fb5c12e3d0d},{214,0x7c0747bd76fa1},{214,0x801333680a235},{214,0x808e3b72c108b},{214,0x816df9418f6fb},{214,0x9fecaf65c82c2},{214,0xa383e3c30120c},{214,0xb073435156486},{214,0xb37a4a02be3c9},{214,0xc7e49d92ecc65},{214,0xd9a284e5d0382},{214,0xe993acabdedd1},{214,0xf0db18b947652},{214,0xfa370a4c95d75},
{215,0x430c2d075c07},{215,0xf7e896356360},{215,0x14991e4761d87},{215,0x19b3b32b6d7ae},{215,0x1cebb55ad72a8},{215,0x1ea681f963150},{215,0x25e4494d5fe97},{215,0x27766916f229b},{215,0x2e1e06bb9c04a},{215,0x38750489b0d4d},{215,0x3f019fdc48db9},{215,0x488bab69b0db2},{215,0x5d98932280f0a},{215,0x5fffdd1b388be},{215,0x74e907164b2e3},{215,0x7a0151e82d657},{215,0x7c0747bd76fa1},{215,0x7e0d3d92c08eb},{215,0x7fa488c72930d},{215,0x88399036476a2},{215,0x887d7e9d18674},{215,0xa31404db99ed4},{215,0xa383e3c30120c},{215,0xb073435156486},{215,0xb37a4a02be3c9},{215,0xc7e49d92ecc65},{215,0xd219c75b040b3},{215,0xd9a284e5d0382},{215,0xe0b1ca4f714ae},{215,0xe0b32a919f8a8},{215,0xe993acabdedd1},{215,0xf0db18b947652},{215,0xfb26a60c74d6a},
{216,0x3eaba12ca},{216,0x430c2d075c07},{216,0x14991e4761d87},{216,0x1c0bf78c08c38},{216,0x1e4a6c5191bde},{216,0x268711688956a},{216,0x2e1e06bb9c04a},{216,0x38750489b0d4d},{216,0x488bab69b0db2},{216,0x4d66a831d58bd},{216,0x5d98932280f0a},{216,0x5fc7eda784f22},{216,0x5fffdd1b388be},{216,0x74e907164b2e3},{216,0x7b044cd2d22fc},{216,0x7c0747bd76fa1},{216,0x7d0a42a81bc46},{216,0x7fa488c72930d},{216,0x88399036476a2},{216,0x887d7e9d18674},{216,0x8ce69402ebf5d},{216,0x9a2051c0569be},{216,0xb073435156486},{216,0xb37a4a02be3c9},{216,0xb49c1ab98406f},{216,0xc44a318e3d375},{216,0xc63b27ba9a2d8},{216,0xccff3276f868c},{216,0xd9a284e5d0382},{216,0xe6841aeb3294f},{216,0xe9d1cf80f52fc},{216,0xf0db18b947652},{216,0xf228b41afd166},
{217,0x3eaba12ca},{217,0x430c2d075c07},{217,0x14991e4761d87},{217,0x1c0bf78c08c38},{217,0x268711688956a},{217,0x3e75c93b07db3},{217,0x47bf09f058e19},{217,0x488bab69b0db2},{217,0x4abfd57f96a10},{217,0x4d66a831d58bd},{217,0x5fffdd1b388be},{217,0x6127d7a4105d0},{217,0x6e3edded274f6},{217,0x74e907164b2e3},{217,0x81a5e8b543097},{217,0x88399036476a2},{217,0x8bb11510e85de},{217,0x8ce69402ebf5d},{217,0x91171827c089a},{217,0x9a2051c0569be},{217,0x9c5669c3ced94},{217,0xa75c532bd94a6},{217,0xb49c1ab98406f},{217,0xbd312228a2404},{217,0xbd69be28fb133},{217,0xccff3276f868c},{217,0xd1417c9c27108},{217,0xe6282c9bfb4ea},{217,0xe9d1cf80f52fc},{217,0xf0db18b947652},{217,0xf228b41afd166},
{218,0x3eaba12ca},{218,0x430c2d075c07},{218,0x122319db25184},{218,0x14991e4761d87},{218,0x1ea8c5a77b1d7},{218,0x230f975f36a39},{218,0x2445f50aa903e},{218,0x3e75c93b07db3},{218,0x488bab69b0db2},{218,0x4abfd57f96a10},{218,0x5fffdd1b388be},{218,0x6127d7a4105d0},{218,0x74e907164b2e3},{218,0x7e5ee0edbd073},{218,0x88399036476a2},{218,0x8ce69402ebf5d},{218,0x9247fcfd0b21b},{218,0x9a2051c0569be},{218,0x9d9f08320fdc1},{218,0xa75c532bd94a6},{218,0xb6cbbd7339bbf},{218,0xc4901cdeddb78},{218,0xccff3276f868c},{218,0xe519fc495b10a},{218,0xe6282c9bfb4ea},{218,0xe9d1cf80f52fc},{218,0xeb9e8ee885526},
{219,0x3eaba12ca},{219,0x3cea3586452d},{219,0x430c2d075c07},{219,0x911ac4363227},{219,0x122319db25184},{219,0x14991e4761d87},{219,0x230f975f36a39},{219,0x2445f50aa903e},{219,0x3e75c93b07db3},{219,0x488bab69b0db2},{219,0x591c133cb8da4},{219,0x5d7e4021d7be3},{219,0x5fffdd1b388be},{219,0x6053c448c5f28},{219,0x630ef56f0af46},{219,0x74e907164b2e3},{219,0x7e5ee0edbd073},{219,0x88399036476a2},{219,0x9247fcfd0b21b},{219,0x9713850d8462e},{219,0x97ece8e478d8d},{219,0x9a2051c0569be},{219,0x9d9f08320fdc1},{219,0xb98d52ab9cf4b},{219,0xc4901cdeddb78},{219,0xccff3276f868c},{219,0xd943e29234568},{219,0xd9c5600786bbb},{219,0xda46dd7cd920d},{219,0xdac85af22b860},{219,0xdb49d8677deb2},{219,0xdbcb55dcd0505},{219,0xdc4cd35222b57},{219,0xdcce50c7751aa},{219,0xe0c061e93339f},{219,0xe519fc495b10a},{219,0xe6282c9bfb4ea},{219,0xfde83b44d80f6},
{220,0x3eaba12ca},{220,0x3cea3586452d},{220,0x430c2d075c07},{220,0x911ac4363227},{220,0x111f32f2f4bc0},{220,0x122319db25184},{220,0x14991e4761d87},{220,0x1b348772e70e1},{220,0x30d7817926bf5},{220,0x3e75c93b07db3},{220,0x488bab69b0db2},{220,0x4b0b502ab7ba4},{220,0x4f26a73752272},{220,0x591c133cb8da4},{220,0x5d7e4021d7be3},{220,0x69a270307f923},{220,0x88399036476a2},{220,0x9247fcfd0b21b},{220,0x97ece8e478d8d},{220,0x99aecc6c6f1a0},{220,0xa339f35744754},{220,0xb2095bc23e65d},{220,0xb2c1d2e27e513},{220,0xbf9d2704d8d64},{220,0xc4901cdeddb78},{220,0xccff3276f868c},{220,0xd33201125798a},{220,0xd5b9745cf3927},{220,0xd79097cf2fa35},{220,0xd840e7a78f8c3},{220,0xdac85af22b860},{220,0xdd4fce3cc77fc},{220,0xdfd7418763799},{220,0xe0c061e93339f},{220,0xe25eb4d1ff735},{220,0xe519fc495b10a},{220,0xe6282c9bfb4ea},{220,0xe7f5092bb26bb},
{221,0x3cea3586452d},{221,0x430c2d075c07},{221,0x911ac4363227},{221,0x122319db25184},{221,0x14991e4761d87},{221,0x1b348772e70e1},{221,0x2ed67ddbdbf00},{221,0x3c234b6e28f6a},{221,0x488bab69b0db2},{221,0x4b0b502ab7ba4},{221,0x4f26a73752272},{221,0x4f41d11996a6c},{221,0x5d7e4021d7be3},{221,0x63ad7894f014d},{221,0x69a270307f923},{221,0x7ab59483284b8},{221,0x9247fcfd0b21b},{221,0xafc9b2fdcfefb},{221,0xba97d0009fbfb},{221,0xbc6ef372dbd0a},{221,0xc4901cdeddb78},{221,0xc91433e7e7b18},{221,0xccff3276f868c},{221,0xd25b91a719f37},{221,0xd5b9745cf3927},{221,0xd840e7a78f8c3},{221,0xdac85af22b860},{221,0xdd4fce3cc77fc},{221,0xddf699292c490},{221,0xe25eb4d1ff735},{221,0xe519fc495b10a},{221,0xe6282c9bfb4ea},{221,0xee0d5d0e62a98},{221,0xef03f5470b544},{221,0xfba935bc17352},
{222,0x3cea3586452d},{222,0x4273b18918b0},{222,0x911ac4363227},{222,0xbea5b053a004},{222,0x1b348772e70e1},{222,0x2ed67ddbdbf00},{222,0x3c234b6e28f6a},{222,0x4046ebc08730e},{222,0x4a9faf5570e87},{222,0x4b0b502ab7ba4},{222,0x4f41d11996a6c},{222,0x5d7e4021d7be3},{222,0x64164435a0a48},{222,0x669db7803c9e4},{222,0x69a270307f923},{222,0x7dead8296a2c6},{222,0x8fdeddcb05312},{222,0x9ab4fedac8fab},{222,0xa73c89ed8bf35},{222,0xacdebc6297b91},{222,0xbb2376a25509d},{222,0xc4901cdeddb78},{222,0xc91433e7e7b18},{222,0xccff3276f868c},{222,0xd091174e0e425},{222,0xd25b91a719f37},{222,0xd5b9745cf3927},{222,0xdac85af22b860},{222,0xdd4fce3cc77fc},{222,0xe25eb4d1ff735},{222,0xe519fc495b10a},{222,0xe6e476a266c1c},{222,0xef03f5470b544},{222,0xf26658f39f689},{222,0xf4895f9dbf86f},
{223,0x3cea3586452d},{223,0x4273b18918b0},{223,0x1b348772e70e1},{223,0x28bd38d75b33c},{223,0x2d88811e4613b},{223,0x3c234b6e28f6a},{223,0x4046ebc08730e},{223,0x4b0b502ab7ba4},{223,0x4f41d11996a6c},{223,0x5100fbd31524b},{223,0x558596a2f8231},{223,0x59f8770b30bd6},{223,0x62f50174b0297},{223,0x64164435a0a48},{223,0x669db7803c9e4},{223,0x69a270307f923},{223,0x6a60ed0f42016},{223,0x7dead8296a2c6},{223,0x86cd7033433b5},{223,0x8fdeddcb05312},{223,0x9262f3696a4e0},{223,0x98e0aede242f5},{223,0x9f6f4f93e6154},{223,0xa3ea58a55d437},{223,0xa5750550314a9},{223,0xac1b6c1957cde},{223,0xacdebc6297b91},{223,0xbb2376a25509d},{223,0xc91433e7e7b18},{223,0xccff3276f868c},{223,0xd091174e0e425},{223,0xd5b9745cf3927},{223,0xdac85af22b860},{223,0xe1e3afd02f7bb},{223,0xe25eb4d1ff735},{223,0xf4895f9dbf86f},
{224,0x3cea3586452d},{224,0x4273b18918b0},{224,0x1712279e5238f},{224,0x28bd38d75b33c},{224,0x2c1f2845afa13},{224,0x2caa1cfdae3af},{224,0x2d09540b3c239},{224,0x2d88811e4613b},{224,0x3c234b6e28f6a},{224,0x5100fbd31524b},{224,0x5566ffafb1eb0},{224,0x669db7803c9e4},{224,0x69a270307f923},{224,0x72d9299449e74},{224,0x7dead8296a2c6},{224,0x80b44c639a80d},{224,0x86cd7033433b5},{224,0xa47e36291e08d},{224,0xaac0bf9b9e65c},{224,0xb3d68592de324},{224,0xbb2376a25509d},{224,0xc91433e7e7b18},{224,0xccff3276f868c},{224,0xd5b9745cf3927},{224,0xe1e3afd02f7bb},{224,0xe8f8ab74d1379},{224,0xf4895f9dbf86f},
{225,0x3cea3586452d},{225,0x4273b18918b0},{225,0x183c602b0946e},{225,0x202543435d40d},{225,0x288c52a2d5626},{225,0x28bd38d75b33c},{225,0x2bb1683f58a93},{225,0x2d09540b3c239},{225,0x3562794c6714a},{225,0x5100fbd31524b},{225,0x669db7803c9e4},{225,0x6be736032c300},{225,0x72d9299449e74},{225,0x7dead8296a2c6},{225,0x7e581fc9def1c},{225,0x7f3b569a27631},{225,0x924f52847be22},{225,0x97d8f5b41227e},{225,0xb3d68592de324},{225,0xbb2376a25509d},{225,0xbbe538272618b},{225,0xbc99e4937151f},{225,0xbd1bd54308cda},{225,0xc72064e720061},{225,0xc91433e7e7b18},{225,0xd0180392d5db7},{225,0xe8f8ab74d1379},{225,0xf055290954fe0},{225,0xf4895f9dbf86f},{225,0xfa4f721bbd3b2},{225,0xfafc53ebea382},{225,0xfb9055c94eeb6},
{226,0x3cea3586452d},{226,0x4273b18918b0},{226,0x159a4f95bdf31},{226,0x1e820559b7b41},{226,0x28bd38d75b33c},{226,0x3562794c6714a},{226,0x361ac1a2fe196},{226,0x40165b004c919},{226,0x4e00186651d97},{226,0x5100fbd31524b},{226,0x533b95661fc76},{226,0x669db7803c9e4},{226,0x69f353759d172},{226,0x6f194642b91f8},{226,0x72d9299449e74},{226,0x72ec870d3200b},{226,0x74b6dca2b6163},{226,0x7dead8296a2c6},{226,0x7f3b569a27631},{226,0x901d63ee8c181},{226,0x924f52847be22},{226,0x97d8f5b41227e},{226,0xb07694cdfcecb},{226,0xb3d68592de324},{226,0xbc99e4937151f},{226,0xbd1bd54308cda},{226,0xc5d25976cab2d},{226,0xd0180392d5db7},{226,0xd20e110b9320b},{226,0xe8f8ab74d1379},{226,0xee3f3464b8f95},{226,0xf4895f9dbf86f},{226,0xfa4f721bbd3b2},
{227,0x3cea3586452d},{227,0x4273b18918b0},{227,0x11fc128f8dad3},{227,0x159a4f95bdf31},{227,0x2e7b54df6b304},{227,0x361ac1a2fe196},{227,0x40108fb4b6cc5},{227,0x40165b004c919},{227,0x533b95661fc76},{227,0x5a4ee7f3473be},{227,0x669db7803c9e4},{227,0x689336c7c4f9e},{227,0x72d9299449e74},{227,0x72ec870d3200b},{227,0x7663a7669ac53},{227,0x7f3b569a27631},{227,0x8b8a26271cc58},{227,0x8d3a5aaf8d3e0},{227,0x984e0a64ee177},{227,0xaac0bf9b9e65c},{227,0xb29e4b3622d9c},{227,0xc25361c625cf8},{227,0xc36876096d488},{227,0xcbd386c70a088},{227,0xd0180392d5db7},{227,0xd45c805ea1ae6},{227,0xd48aeea22c438},{227,0xdd835e40322c2},{227,0xe0b893a6e1be2},{227,0xe8f8ab74d1379},{227,0xee3f3464b8f95},{227,0xfa4f721bbd3b2},
{228,0x3cea3586452d},{228,0x4273b18918b0},{228,0xab877c142ff9},{228,0xe2c5c2dc438a},{228,0x1174913e55424},{228,0x41b148d95c771},{228,0x44123ac51ba32},{228,0x511faee07e14f},{228,0x533b95661fc76},{228,0x5de76616f260a},{228,0x633d4e6f5bad4},{228,0x669db7803c9e4},{228,0x689336c7c4f9e},{228,0x72d9299449e74},{228,0x72ec870d3200b},{228,0x7568a7a82a990},{228,0x7f3b569a27631},{228,0x86827383d216d},{228,0x8b69aaa4efebc},{228,0x9f3f210be4ad5},{228,0xa276cedd4f5df},{228,0xafae296db5fe6},{228,0xbac19397dabcc},{228,0xbcc5645af24f2},{228,0xbdf1bc4e59c3e},{228,0xc25361c625cf8},{228,0xd0180392d5db7},{228,0xd48aeea22c438},{228,0xdd835e40322c2},{228,0xe0b893a6e1be2},{228,0xe56e738dd0fa2},{228,0xe8f8ab74d1379},{228,0xee3f3464b8f95},{228,0xfa4f721bbd3b2},
{229,0x3cea3586452d},{229,0x4273b18918b0},{229,0x1009fd836acf5},{229,0x1174913e55424},{229,0x1c58cd106031b},{229,0x256483bafce5f},{229,0x33b244c3f69c2},{229,0x391a70eeabe90},{229,0x41b148d95c771},{229,0x44123ac51ba32},{229,0x4f8787f9baae9},{229,0x533b95661fc76},{229,0x5c9a924799def},{229,0x633d4e6f5bad4},{229,0x72ec870d3200b},{229,0x7f3b569a27631},{229,0x83890d7c7efcd},{229,0x8896a8da3cc5a},{229,0x8b69aaa4efebc},{229,0x8f683ef460172},{229,0x9014b3a1e47f6},{229,0x90cacc82a6e7a},{229,0xaa19a1460a181},{229,0xb6111f25e8d4f},{229,0xbcc5645af24f2},{229,0xbdf1bc4e59c3e},{229,0xc980410a03cfa},{229,0xd0180392d5db7},{229,0xd48aeea22c438},{229,0xd5cf1096f9321},{229,0xe289ed460ab29},{229,0xe8f8ab74d1379},{229,0xf85a6b20348af},{229,0xfac4e388cc18d},
{230,0x2cef63c2f6a1},{230,0x4273b18918b0},{230,0xab877c142ff9},{230,0xeb7afd8c96eb},{230,0x1009fd836acf5},{230,0x180e7dbe1ff2c},{230,0x1becbfee44139},{230,0x1c3b149bdce9e},{230,0x22dbd9a1fbe0b},{230,0x33b244c3f69c2},{230,0x391a70eeabe90},{230,0x3ea2d1383eac1},{230,0x4f8787f9baae9},{230,0x533b95661fc76},{230,0x541198b002391},{230,0x5c9a924799def},{230,0x60925a432706f},{230,0x60c23623f7029},{230,0x633d4e6f5bad4},{230,0x6a6e83a3e1456},{230,0x6de91f202e468},{230,0x7d9ca81344168},{230,0x7f3b569a27631},{230,0x83890d7c7efcd},{230,0x8b69aaa4efebc},{230,0x9014b3a1e47f6},{230,0x90cacc82a6e7a},{230,0x96594aed37dd3},{230,0x9c4019b745f31},{230,0xb0e2a1f0190ad},{230,0xb6111f25e8d4f},{230,0xbdf1bc4e59c3e},{230,0xd0180392d5db7},{230,0xd3a708cbd0c42},{230,0xe3ce8524a43ff},{230,0xe8f8ab74d1379},{230,0xecf75fe5a4da9},{230,0xee6cafb0e3f6e},{230,0xf088f15b708d8},{230,0xfac4e388cc18d},
{231,0x4273b18918b0},{231,0xab877c142ff9},{231,0xeb7afd8c96eb},{231,0x1009fd836acf5},{231,0x180e7dbe1ff2c},{231,0x1becbfee44139},{231,0x27cf82591d57e},{231,0x2aaac2c544697},{231,0x388e0bac11484},{231,0x391a70eeabe90},{231,0x47889ca8ccac6},{231,0x541198b002391},{231,0x60925a432706f},{231,0x60c23623f7029},{231,0x6264677f5921d},{231,0x633d4e6f5bad4},{231,0x6a6e83a3e1456},{231,0x6de91f202e468},{231,0x7d9ca81344168},{231,0x7f3b569a27631},{231,0x9014b3a1e47f6},{231,0x9214ce216c0a4},{231,0x96594aed37dd3},{231,0x980efc452036f},{231,0xb338a74006dc5},{231,0xb358101a29cc8},{231,0xbdf1bc4e59c3e},{231,0xc29c62960b955},{231,0xd0180392d5db7},{231,0xd3a708cbd0c42},{231,0xda18e69bd8581},{231,0xdf16624b7f9ee},{231,0xe02dacb081823},{231,0xe8f8ab74d1379},{231,0xecf75fe5a4da9},{231,0xfac4e388cc18d},{231,0xfb670e0f0c5a2},
{232,0x3a02aadee656},{232,0x4273b18918b0},{232,0xeb7afd8c96eb},{232,0x1009fd836acf5},{232,0x1becbfee44139},{232,0x2aaac2c544697},{232,0x37bcf2fe6038a},{232,0x388e0bac11484},{232,0x3fbb35f4cadfd},{232,0x509ab9cb2386c},{232,0x541198b002391},{232,0x60925a432706f},{232,0x60c23623f7029},{232,0x6292a25e08617},{232,0x633d4e6f5bad4},{232,0x740595db92adf},{232,0x75e3d0d88050d},{232,0x7b3fe3fd35861},{232,0x7d9ca81344168},{232,0x8ba5296fa3cd0},{232,0x9014b3a1e47f6},{232,0x980efc452036f},{232,0xa3f1beaff97b4},{232,0xa76b3e1c6728f},{232,0xb358101a29cc8},{232,0xc1a855696e5be},{232,0xd0180392d5db7},{232,0xd3a708cbd0c42},{232,0xdcc3dac80cfe6},{232,0xde87b1bc3d5b0},{232,0xe02dacb081823},{232,0xecf75fe5a4da9},{232,0xfb670e0f0c5a2},
{233,0x19dc0caf5c},{233,0x3a02aadee656},{233,0x9d51418ac9a5},{233,0xeb7afd8c96eb},{233,0x1009fd836acf5},{233,0x15fd1aab923b3},{233,0x1f3c0ea3a063e},{233,0x2924fc6f37ab0},{233,0x388e0bac11484},{233,0x3cbb0e357f8f8},{233,0x3fbb35f4cadfd},{233,0x509ab9cb2386c},{233,0x541198b002391},{233,0x59fdde19b2254},{233,0x60925a432706f},{233,0x60c23623f7029},{233,0x6275c12210458},{233,0x6292a25e08617},{233,0x75e3d0d88050d},{233,0x7b3fe3fd35861},{233,0x7d9ca81344168},{233,0x7dbe6b6634b10},{233,0x8049776f6dae6},{233,0x87e99cc3d05da},{233,0x8ba5296fa3cd0},{233,0x9014b3a1e47f6},{233,0x91da12da62020},{233,0x980efc452036f},{233,0xa160278744f1d},{233,0xbaf7b3380f32b},{233,0xc216510dfe7f4},{233,0xd0180392d5db7},{233,0xd5ca87056e667},{233,0xde87b1bc3d5b0},{233,0xdfe77af930ae8},{233,0xe202dcdb678cf},{233,0xe36e590e496f4},{233,0xecf75fe5a4da9},{233,0xfb37b265bd374},{233,0xfb670e0f0c5a2},
{234,0x14f7291e00cf},{234,0x68cb90fded27},{234,0xeb7afd8c96eb},{234,0x1009fd836acf5},{234,0x15fd1aab923b3},{234,0x1f3c0ea3a063e},{234,0x27cf82591d57e},{234,0x2924fc6f37ab0},{234,0x365596d926587},{234,0x367bc14c3eea9},{234,0x388e0bac11484},{234,0x60c23623f7029},{234,0x6275c12210458},{234,0x71c362ef64add},{234,0x771b4f3d90cab},{234,0x79066d2f692e2},{234,0x7d9ca81344168},{234,0x7dbe6b6634b10},{234,0x8049776f6dae6},{234,0x81f964f2a6a9a},{234,0x87e99cc3d05da},{234,0x8bd236fbc8739},{234,0x8ddcf4ae031aa},{234,0x980efc452036f},{234,0xa160278744f1d},{234,0xa5d72beef75ba},{234,0xb9c1865816f75},{234,0xba61c96f91b0a},{234,0xbc6a2d3c80a6e},{234,0xca3d5805b5046},{234,0xd0180392d5db7},{234,0xd5ca87056e667},{234,0xda4334f071881},{234,0xe36e590e496f4},{234,0xecf75fe5a4da9},{234,0xfb37b265bd374},{234,0xfb670e0f0c5a2},
{235,0x14f7291e00cf},{235,0x68cb90fded27},{235,0x1009fd836acf5},{235,0x15fd1aab923b3},{235,0x1e2ecee4af0c1},{235,0x2f128c9921d82},{235,0x353810b2561d9},{235,0x388e0bac11484},{235,0x3aa59d45fd098},{235,0x3ecf22ea07862},{235,0x4488355969feb},{235,0x4d44f36a48f12},{235,0x60c23623f7029},{235,0x71c362ef64add},{235,0x7723693bc273c},{235,0x79066d2f692e2},{235,0x81f964f2a6a9a},{235,0x8bd236fbc8739},{235,0x980efc452036f},{235,0xb9453ba56766f},{235,0xc00406ae2c219},{235,0xc2fa4dc5b0841},{235,0xca5f7a8d47f60},{235,0xcc8d341b1f666},{235,0xd0180392d5db7},{235,0xdddcbd46f6077},{235,0xe81271c21b4ac},{235,0xfb37b265bd374},{235,0xfb670e0f0c5a2},
{236,0x677172dfbed0},{236,0x68cb90fded27},{236,0xedbc7d3907b5},{236,0xee359a0480b9},{236,0x1009fd836acf5},{236,0x10f8ca8fca919},{236,0x1419aff3c39cd},{236,0x15fd1aab923b3},{236,0x1e2ecee4af0c1},{236,0x208c781918d79},{236,0x2f128c9921d82},{236,0x38902c567a838},{236,0x3aa59d45fd098},{236,0x3ecf22ea07862},{236,0x4488355969feb},{236,0x623cff0cacfb7},{236,0x67a12b287cd11},{236,0x6e4b98cf451ad},{236,0x6ec27e007e90f},{236,0x71c362ef64add},{236,0x7723693bc273c},{236,0x79066d2f692e2},{236,0x83a74032ddd75},{236,0x8be9d1c2df736},{236,0xb9453ba56766f},{236,0xc00406ae2c219},{236,0xc2fa4dc5b0841},{236,0xca5f7a8d47f60},{236,0xcc8d341b1f666},{236,0xcf631c2e59b95},{236,0xdbd0efd11eef1},{236,0xe478626679cd0},{236,0xeb95c330d66f3},{236,0xf6509790fa828},{236,0xfb670e0f0c5a2},
{237,0x68cb90fded27},{237,0x1419aff3c39cd},{237,0x197bb00ebdcaf},{237,0x1ac4d1e38ee29},{237,0x1b2884b1fec6c},{237,0x2f128c9921d82},{237,0x348fadb6f399f},{237,0x38902c567a838},{237,0x3aa59d45fd098},{237,0x3ecf22ea07862},{237,0x4927ed843ec2b},{237,0x52a6f385431f4},{237,0x53f6704b91e22},{237,0x5808f3a03d4d6},{237,0x6af7ea9f1c45e},{237,0x71c362ef64add},{237,0x7723693bc273c},{237,0x79066d2f692e2},{237,0x88848041ba865},{237,0x8d5427e4fc23b},{237,0x96963731bccfd},{237,0x9a5ed85a8a98f},{237,0xb8b6cde055b45},{237,0xb9453ba56766f},{237,0xc2fa4dc5b0841},{237,0xc7b4e9cecee68},{237,0xcf631c2e59b95},{237,0xd239dd996d868},{237,0xd5237ac33c524},{237,0xd748087b4379a},{237,0xdbd0efd11eef1},{237,0xe478626679cd0},{237,0xeb95c330d66f3},
{238,0x68cb90fded27},{238,0x1419aff3c39cd},{238,0x1528eb225551c},{238,0x197bb00ebdcaf},{238,0x1ac4d1e38ee29},{238,0x24ebaf3e585d6},{238,0x38902c567a838},{238,0x3aa59d45fd098},{238,0x3ecf22ea07862},{238,0x53f6704b91e22},{238,0x5808f3a03d4d6},{238,0x6af7ea9f1c45e},{238,0x6ca833ba39997},{238,0x7723693bc273c},{238,0x832d4a8a32a8e},{238,0x88848041ba865},{238,0x8b47c96085907},{238,0x8e833709458aa},{238,0x96963731bccfd},{238,0x9a5ed85a8a98f},{238,0x9f6c298548ad2},{238,0xa2468282f67bb},{238,0xaeac93101d8e8},{238,0xb22ab8096cbab},{238,0xb9453ba56766f},{238,0xc2fa4dc5b0841},{238,0xd239dd996d868},{238,0xd5237ac33c524},{238,0xd748087b4379a},{238,0xdbd0efd11eef1},{238,0xe16ee5d60cf47},{238,0xe6649681e41d1},{238,0xeb95c330d66f3},{238,0xffe37de66964c},
{239,0x55cf3e7c379},{239,0x429cb8f8ddb8},{239,0x68cb90fded27},{239,0x10b61c71da40d},{239,0x1419aff3c39cd},{239,0x1528eb225551c},{239,0x197bb00ebdcaf},{239,0x34da32ceabcd2},{239,0x38902c567a838},{239,0x3ecf22ea07862},{239,0x4ef90e36e0c5c},{239,0x5808f3a03d4d6},{239,0x64d7cc381022f},{239,0x6af7ea9f1c45e},{239,0x7723693bc273c},{239,0x832d4a8a32a8e},{239,0x88848041ba865},{239,0x8b47c96085907},{239,0x8e833709458aa},{239,0x8e849eee429ae},{239,0x91c654046bc58},{239,0x96963731bccfd},{239,0x9a5ed85a8a98f},{239,0x9f6c298548ad2},{239,0xa2468282f67bb},{239,0xb83171a47512d},{239,0xbacc3ecfd83a5},{239,0xc2fa4dc5b0841},{239,0xc6fdd3ed45d4e},{239,0xcd212b2079fee},{239,0xd5237ac33c524},{239,0xd748087b4379a},{239,0xe16ee5d60cf47},{239,0xe6649681e41d1},{239,0xeafe9c5cc642c},{239,0xeb95c330d66f3},{239,0xf5bca08b9fea0},{239,0xffe37de66964c},
{240,0x429cb8f8ddb8},{240,0x47824f2bb6d9},{240,0x117e26cbab331},{240,0x1419aff3c39cd},{240,0x197bb00ebdcaf},{240,0x3207d1b5c4d28},{240,0x34da32ceabcd2},{240,0x3ab648cd791db},{240,0x3d72b724caa09},{240,0x3ecf22ea07862},{240,0x5808f3a03d4d6},{240,0x64d7cc381022f},{240,0x679c85949b331},{240,0x6e135f87cd935},{240,0x709515474454f},{240,0x70b84933feded},{240,0x86b4376c19246},{240,0x88848041ba865},{240,0x8b47c96085907},{240,0x8e849eee429ae},{240,0x8ea5f5fd3ac34},{240,0x91c654046bc58},{240,0x96963731bccfd},{240,0x9a5ed85a8a98f},{240,0x9f6c298548ad2},{240,0xa00db2b12c4c1},{240,0xa2468282f67bb},{240,0xb89576d15d8bf},{240,0xbcc0e9b305e6b},{240,0xc558dc78cf8bd},{240,0xc6fdd3ed45d4e},{240,0xc9a2bd9977206},{240,0xcd212b2079fee},{240,0xd5237ac33c524},{240,0xd748087b4379a},{240,0xe16ee5d60cf47},{240,0xe1de445aa78ac},{240,0xeb95c330d66f3},{240,0xf0a40bb4f8094},{240,0xffe37de66964c},
{241,0x429cb8f8ddb8},{241,0x10d77380d2693},{241,0x117e26cbab331},{241,0x1419aff3c39cd},{241,0x1952e8562c655},{241,0x197bb00ebdcaf},{241,0x1e376dce75891},{241,0x3207d1b5c4d28},{241,0x35e2228d0c3fb},{241,0x3734976324e57},{241,0x3ab648cd791db},{241,0x3ecf22ea07862},{241,0x4c153b1c1bcb4},{241,0x534d35e0858f4},{241,0x5808f3a03d4d6},{241,0x63ffbdb324f9f},{241,0x686d4cd364c1c},{241,0x6e269b0dee74b},{241,0x709515474454f},{241,0x70b84933feded},{241,0x86b4376c19246},{241,0x8b47c96085907},{241,0x91c654046bc58},{241,0x96963731bccfd},{241,0x9a5ed85a8a98f},{241,0x9f6c298548ad2},{241,0xa2468282f67bb},{241,0xbcc0e9b305e6b},{241,0xc4c498369fdc9},{241,0xc558dc78cf8bd},{241,0xcd212b2079fee},{241,0xd16d6d4b89689},{241,0xd5237ac33c524},{241,0xdaaf0b75071c6},{241,0xe16ee5d60cf47},{241,0xe1de445aa78ac},{241,0xe284f7a58054a},{241,0xffe37de66964c},
{242,0x429cb8f8ddb8},{242,0x1952e8562c655},{242,0x2f6f06fc7a777},{242,0x35e2228d0c3fb},{242,0x3734976324e57},{242,0x3ab648cd791db},{242,0x3ecf22ea07862},{242,0x50584fe4f40e3},{242,0x51cafa8a6b445},{242,0x52a3fb75793c6},{242,0x534d35e0858f4},{242,0x59d8e0585b7f2},{242,0x662532cdc1b6b},{242,0x794f6933f544f},{242,0x8c9b331e4ae51},{242,0x901f0bc89d270},{242,0x94385851e0f0c},{242,0x9f6c298548ad2},{242,0xa2468282f67bb},{242,0xa2b751c498f73},{242,0xa80630cb92b68},{242,0xab8e6fdaf17df},{242,0xbcc0e9b305e6b},{242,0xcd212b2079fee},{242,0xcd958cff2cfa6},{242,0xd5237ac33c524},{242,0xe16ee5d60cf47},{242,0xe284f7a58054a},{242,0xe909802e15689},{242,0xffd922c2bd4aa},{242,0xffe37de66964c},
{243,0x429cb8f8ddb8},{243,0x10133cf3c078d},{243,0x18770f3992f02},{243,0x1b3e7d4c80022},{243,0x2724a50eb4014},{243,0x2f6f06fc7a777},{243,0x3734976324e57},{243,0x3995e45743f24},{243,0x3ab648cd791db},{243,0x3ecf22ea07862},{243,0x47c8f8f10c618},{243,0x47ce2b03e6750},{243,0x50584fe4f40e3},{243,0x51cafa8a6b445},{243,0x534d35e0858f4},{243,0x5617fe2d90490},{243,0x59d8e0585b7f2},{243,0x64847292a3be0},{243,0x662532cdc1b6b},{243,0x794f6933f544f},{243,0x7b7841ee55263},{243,0x865b6e9565f77},{243,0x8ed7f893aeffd},{243,0x901f0bc89d270},{243,0xa80630cb92b68},{243,0xab8e6fdaf17df},{243,0xacde2f1f6271f},{243,0xb4ade98a8ea18},{243,0xb78abe599c48f},{243,0xc2131bcd52f5d},{243,0xc4e8b226e579e},{243,0xc94e2063f0f6f},{243,0xcd212b2079fee},{243,0xcfcbdecdf64b2},{243,0xd5237ac33c524},{243,0xe16ee5d60cf47},{243,0xe182ffa1ad02a},{243,0xe909802e15689},{243,0xed0d58802615f},{243,0xf7850dd34fc31},{243,0xf9f4636995240},
{244,0x429cb8f8ddb8},{244,0xe8ca2f3da150},{244,0x10133cf3c078d},{244,0x18770f3992f02},{244,0x25d789aea1d7a},{244,0x2724a50eb4014},{244,0x3734976324e57},{244,0x45962e2f6a490},{244,0x47c8f8f10c618},{244,0x534d35e0858f4},{244,0x5a2e144e72394},{244,0x64d3dc8c74a99},{244,0x72d665989d6f1},{244,0x794f6933f544f},{244,0x7a1bdc59730c1},{244,0x7b7841ee55263},{244,0x835b87bbdef89},{244,0x865b6e9565f77},{244,0x8c9b331e4ae51},{244,0x8e77f9bcfe57d},{244,0x8ed7f893aeffd},{244,0x901f0bc89d270},{244,0x93e1d0a6cf99d},{244,0x96fbb9bb44db4},{244,0x9f1a89e322be1},{244,0xa80630cb92b68},{244,0xac6ebfc1d9b69},{244,0xacde2f1f6271f},{244,0xb4ade98a8ea18},{244,0xb78abe599c48f},{244,0xc4e8b226e579e},{244,0xcd84e177b0e63},{244,0xcfcbdecdf64b2},{244,0xd0fd4a1a93ed4},{244,0xd5237ac33c524},{244,0xe86145471f6d8},{244,0xed0d58802615f},{244,0xf5990bfbea030},{244,0xf6a3d283fd784},{244,0xf9f4636995240},
{245,0x1028c751bbd2},{245,0x429cb8f8ddb8},{245,0x10133cf3c078d},{245,0x27024a488c833},{245,0x2c963b623c69e},{245,0x452dfe20a2cad},{245,0x47c8f8f10c618},{245,0x5a2e144e72394},{245,0x5e78b60991756},{245,0x6250b0118459b},{245,0x6f11a2e034f74},{245,0x794f6933f544f},{245,0x7a1bdc59730c1},{245,0x835b87bbdef89},{245,0x8c9b331e4ae51},{245,0x8ed7f893aeffd},{245,0x93e1d0a6cf99d},{245,0x9d0334cbf7eae},{245,0xa3315b76a5a46},{245,0xa47320ee37c92},{245,0xb3599c27c8b56},{245,0xbccb4dd8ba0db},{245,0xc07794937ad7e},{245,0xc4e8b226e579e},{245,0xc8a4e5f8e4a41},{245,0xcd06167510e61},{245,0xcd84e177b0e63},{245,0xd0fd4a1a93ed4},{245,0xd1c100d1aff52},{245,0xe86145471f6d8},{245,0xf5990bfbea030},
{246,0x1028c751bbd2},{246,0x429cb8f8ddb8},{246,0x681153ca0e47},{246,0x10133cf3c078d},{246,0x14af8116a6f0e},{246,0x27024a488c833},{246,0x2c963b623c69e},{246,0x3745f97ea8f72},{246,0x452dfe20a2cad},{246,0x4ff20de9a2799},{246,0x6a938ad510e46},{246,0x6f11a2e034f74},{246,0x78bf76c490f1e},{246,0x7ebbb20aa9025},{246,0x7fecbeae04c4c},{246,0x835b87bbdef89},{246,0x87fb5d6d14eed},{246,0x8ed7f893aeffd},{246,0xa445aac9439e8},{246,0xa47320ee37c92},{246,0xaa8e4446c776d},{246,0xb083a5fdcdeb8},{246,0xc07794937ad7e},{246,0xc4e8b226e579e},{246,0xc8a4e5f8e4a41},{246,0xcd06167510e61},{246,0xd0be0c8630d53},{246,0xd0fd4a1a93ed4},{246,0xd1c100d1aff52},{246,0xd284a9f7ba7f7},{246,0xdfef601473f37},{246,0xf1f5a91b66dfc},{246,0xf89947a8e4c37},{246,0xf8f3bd5c98736},
{247,0x1028c751bbd2},{247,0x5df40e3f3448},{247,0x27024a488c833},{247,0x2c963b623c69e},{247,0x313ccb4c73a47},{247,0x4ff20de9a2799},{247,0x62fcafe3653cd},{247,0x6a938ad510e46},{247,0x78bf76c490f1e},{247,0x7a1bdc59730c1},{247,0x7be02b675eac3},{247,0x810b9ce343fd7},{247,0x835b87bbdef89},{247,0x85ab729479f3b},{247,0x913b08cf80db5},{247,0x96fbb9bb44db4},{247,0x9bc3ee68ece5c},{247,0x9dc86a77d268d},{247,0xa445aac9439e8},{247,0xb083a5fdcdeb8},{247,0xc07794937ad7e},{247,0xc4e8b226e579e},{247,0xc8a4e5f8e4a41},{247,0xcd06167510e61},{247,0xd0be0c8630d53},{247,0xd0fd4a1a93ed4},{247,0xdfef601473f37},{247,0xf89947a8e4c37},{247,0xfcbaa82a16121},
{248,0x1028c751bbd2},{248,0x5df40e3f3448},{248,0x6819db11225e},{248,0x1ee923bb40521},{248,0x27024a488c833},{248,0x2c963b623c69e},{248,0x2d9f9fc29c030},{248,0x30a9cc7afe924},{248,0x32c37f83dfbd9},{248,0x37dd66165c50b},{248,0x3dfdc6e865a65},{248,0x4aac86e827f22},{248,0x4e633d6f04517},{248,0x52aad91366ade},{248,0x5f05e9cb1e96b},{248,0x65b527ebfbcfe},{248,0x6a938ad510e46},{248,0x78bf76c490f1e},{248,0x7a1bdc59730c1},{248,0x7be02b675eac3},{248,0x835b87bbdef89},{248,0x84837d282c762},{248,0x85ab729479f3b},{248,0x8805e53b50f5e},{248,0x913b08cf80db5},{248,0x95858fb445de2},{248,0x97294ec1bc227},{248,0x9ed41475bb35e},{248,0xb083a5fdcdeb8},{248,0xc38dec37e785d},{248,0xc4e8b226e579e},{248,0xc8a4e5f8e4a41},{248,0xcd06167510e61},{248,0xd0be0c8630d53},{248,0xdfef601473f37},{248,0xf89947a8e4c37},{248,0xfcbaa82a16121},
{249,0x6c7e3c029998},{249,0xee64cc75b19f},{249,0x27024a488c833},{249,0x2c963b623c69e},{249,0x37dd66165c50b},{249,0x3fa08a3ad18be},{249,0x421b2c6a1c9e6},{249,0x4aac86e827f22},{249,0x51713ad7f597b},{249,0x52aad91366ade},{249,0x5f05e9cb1e96b},{249,0x65b527ebfbcfe},{249,0x6a938ad510e46},{249,0x6f3a4f584660e},{249,0x78bf76c490f1e},{249,0x7be02b675eac3},{249,0x7fe3a776f67fe},{249,0x800c8d44ab614},{249,0x83ef827205b75},{249,0x84837d282c762},{249,0x851777de5334e},{249,0x85ab729479f3b},{249,0x8b733db1fd678},{249,0x8bc9c59d2613e},{249,0x9117a3af13367},{249,0x97294ec1bc227},{249,0x9ed41475bb35e},{249,0xa027253667ae7},{249,0xa64f1bf6c7c0b},{249,0xb06b7556f928f},{249,0xb083a5fdcdeb8},{249,0xd0be0c8630d53},{249,0xd13ca78c9a65a},{249,0xdfef601473f37},{249,0xe9249f62d57a1},{249,0xeafd4fd80fbde},{249,0xf89947a8e4c37},{249,0xfb2cfd1599e9b},{249,0xfd5bdb5f0a0bf},{249,0xff45d48674e6a},
{250,0x59d2c1c4c807},{250,0x2c963b623c69e},{250,0x421b2c6a1c9e6},{250,0x49c89dc7d38e2},{250,0x4aac86e827f22},{250,0x51713ad7f597b},{250,0x52aad91366ade},{250,0x5c30007fb13ee},{250,0x5d34e4c5e1c90},{250,0x65b527ebfbcfe},{250,0x66a8b31faa21f},{250,0x6a77bba221186},{250,0x6a938ad510e46},{250,0x6f3a4f584660e},{250,0x75500c0cde22d},{250,0x78bf76c490f1e},{250,0x7a1bdc59730c1},{250,0x7be02b675eac3},{250,0x7d8bfe1f908d9},{250,0x7f6e23a79b345},{250,0x82449e30db82e},{250,0x82c78d05b839c},{250,0x85ab729479f3b},{250,0x867be78b38f15},{250,0x888f58233bad9},{250,0x8bc9c59d2613e},{250,0x9117a3af13367},{250,0x9702d3ed044f2},{250,0x97294ec1bc227},{250,0xa4f92db74e6c6},{250,0xa64f1bf6c7c0b},{250,0xbb86943e7c4af},{250,0xbb8c576b180af},{250,0xbcc11ae519ca4},{250,0xd13ca78c9a65a},{250,0xd5f097031554c},{250,0xd6930ec0879d8},{250,0xeafd4fd80fbde},{250,0xfcbaa82a16121},{250,0xfd5bdb5f0a0bf},{250,0xff45d48674e6a},
{251,0x4b942fbf81c7},{251,0x59d2c1c4c807},{251,0x22cea327fa99d},{251,0x2c963b623c69e},{251,0x421b2c6a1c9e6},{251,0x49c89dc7d38e2},{251,0x4aac86e827f22},{251,0x5ba5c4defbc28},{251,0x5c30007fb13ee},{251,0x60f29435d6876},{251,0x65b527ebfbcfe},{251,0x6a77bba221186},{251,0x6a938ad510e46},{251,0x6cd9057d33bca},{251,0x6f3a4f584660e},{251,0x71446f4384671},{251,0x73fce30e6ba96},{251,0x75500c0cde22d},{251,0x78bf76c490f1e},{251,0x7a1bdc59730c1},{251,0x7be02b675eac3},{251,0x7f6e23a79b345},{251,0x82c78d05b839c},{251,0x85ab729479f3b},{251,0x867be78b38f15},{251,0x888f58233bad9},{251,0x8bc9c59d2613e},{251,0x909fcad457c7d},{251,0x9117a3af13367},{251,0x9702d3ed044f2},{251,0x97294ec1bc227},{251,0x9bb35fd2ed7b9},{251,0xa04210ec131c9},{251,0xa4f92db74e6c6},{251,0xa64f1bf6c7c0b},{251,0xa95ad3166a16b},{251,0xbb638aba9ae8e},{251,0xbb8c576b180af},{251,0xd21f811ee1a98},{251,0xe5a45c723793a},{251,0xeafd4fd80fbde},{251,0xeff5fa87db4eb},{251,0xf505065539d77},{251,0xfcbaa82a16121},{251,0xfd5bdb5f0a0bf},
{252,0x4b942fbf81c7},{252,0x9d740f9fc913},{252,0x20da53882c70f},{252,0x22cea327fa99d},{252,0x2c963b623c69e},{252,0x44631df0f6d46},{252,0x4aac86e827f22},{252,0x543d0ade3a46c},{252,0x5ba5c4defbc28},{252,0x5c30007fb13ee},{252,0x6094c1c3b245b},{252,0x65b527ebfbcfe},{252,0x681671c70e742},{252,0x6a77bba221186},{252,0x6a938ad510e46},{252,0x6ba8608faa6a8},{252,0x6cd9057d33bca},{252,0x6f3a4f584660e},{252,0x719b993359052},{252,0x73fce30e6ba96},{252,0x75500c0cde22d},{252,0x7a1bdc59730c1},{252,0x7be02b675eac3},{252,0x7f6e23a79b345},{252,0x812e09794bcec},{252,0x867be78b38f15},{252,0x888f58233bad9},{252,0x8bc9c59d2613e},{252,0x9117a3af13367},{252,0x966581c100590},{252,0x9bb35fd2ed7b9},{252,0xa04210ec131c9},{252,0xa396a82be07e6},{252,0xa4f92db74e6c6},{252,0xa95ad3166a16b},{252,0xb2a3034a5cb8c},{252,0xb435f4bbf7e6b},{252,0xbb8c576b180af},{252,0xd21f811ee1a98},{252,0xd95ac41d99c0b},{252,0xda7cf81840d1d},{252,0xdfdc9154b41fd},{252,0xe5a45c723793a},{252,0xee500d1e7cc16},{252,0xeff5fa87db4eb},{252,0xf505065539d77},{252,0xfcbaa82a16121},{252,0xfd5bdb5f0a0bf},
{253,0x4b942fbf81c7},{253,0x14c958d381ff6},{253,0x1c6950182b380},{253,0x22cea327fa99d},{253,0x32fc79cbf4d69},{253,0x3b85d7031a704},{253,0x44a2b250cbe2c},{253,0x4aac86e827f22},{253,0x4e753fc0b6d2f},{253,0x50498f385409a},{253,0x543d0ade3a46c},{253,0x5c30007fb13ee},{253,0x681671c70e742},{253,0x694716b497c64},{253,0x6a77bba221186},{253,0x6a938ad510e46},{253,0x6ba8608faa6a8},{253,0x6cd9057d33bca},{253,0x6e09aa6abd0ec},{253,0x73fce30e6ba96},{253,0x7f6e23a79b345},{253,0x7fe35455c8dea},{253,0x867be78b38f15},{253,0x888f58233bad9},{253,0x8bc9c59d2613e},{253,0x8e108c9765285},{253,0x9117a3af13367},{253,0xa04210ec131c9},{253,0xa4ce72013e99a},{253,0xb435f4bbf7e6b},{253,0xba3994fe6a85e},{253,0xbb8c576b180af},{253,0xbd5f848229f73},{253,0xcced289717bd3},{253,0xe5a45c723793a},{253,0xeff5fa87db4eb},{253,0xf505065539d77},{253,0xfcc388e84562e},
{254,0x74fbb134d4cd},{254,0xcfb54db9c7d4},{254,0x14c958d381ff6},{254,0x17c79127f7d19},{254,0x22cea327fa99d},{254,0x44a2b250cbe2c},{254,0x50498f385409a},{254,0x5c30007fb13ee},{254,0x6022cd338813b},{254,0x622339235fd98},{254,0x681671c70e742},{254,0x69df692b5c6f5},{254,0x6a77bba221186},{254,0x6b100e18e5c17},{254,0x6b5c375448160},{254,0x6ba8608faa6a8},{254,0x6c40b3066f139},{254,0x6cd9057d33bca},{254,0x6e09aa6abd0ec},{254,0x73fce30e6ba96},{254,0x7599137ee8354},{254,0x7744689b8670c},{254,0x79f01bb21a440},{254,0x81f5a98e4a78b},{254,0x8bc9c59d2613e},{254,0x8e108c9765285},{254,0x9e62a66f99ca2},{254,0xa04210ec131c9},{254,0xa4ce72013e99a},{254,0xb435f4bbf7e6b},{254,0xba3994fe6a85e},{254,0xbb8c576b180af},{254,0xc749fc01f81e2},{254,0xcbee3e4d35648},{254,0xdceefda774b0f},{254,0xf505065539d77},{254,0xfcc388e84562e},{254,0xfd0fb223a7b77},{254,0xffd4463aa9a52},
{255,0x58eed8a473a3},{255,0x17c79127f7d19},{255,0x17e4fc01cb8b8},{255,0x1a2f8947583e0},{255,0x1c53f23d234ea},{255,0x22cea327fa99d},{255,0x269b182bb868e},{255,0x26da20ef23a1f},{255,0x32897405eb048},{255,0x44a2b250cbe2c},{255,0x47156d3e2157e},{255,0x49d6dc59d8d46},{255,0x50498f385409a},{255,0x5c04d10a05771},{255,0x651cd5753726d},{255,0x65b33e3d9784b},{255,0x681671c70e742},{255,0x6b100e18e5c17},{255,0x6ba8608faa6a8},{255,0x6c40b3066f139},{255,0x6e09aa6abd0ec},{255,0x710346bc945c1},{255,0x7599137ee8354},{255,0x8bc9c59d2613e},{255,0x8dd7924f500f5},{255,0x8fef2aa5d128a},{255,0xa4ce72013e99a},{255,0xa94c4d95c8d87},{255,0xa989e0cf8f190},{255,0xb435f4bbf7e6b},{255,0xb8f5d20b12e3b},{255,0xbb8c576b180af},{255,0xd1029db6782c8},{255,0xd87cbed21ea4d},{255,0xe9411c86e0069},{255,0xf505065539d77},{255,0xf648c9489179a},{255,0xfc9b980947a49},
{256,0x16780aad21968},{256,0x1c53f23d234ea},{256,0x22cea327fa99d},{256,0x269b182bb868e},{256,0x2a155e88a8ee9},{256,0x30fd6106c3435},{256,0x39e63118fea45},{256,0x4169819f1f871},{256,0x44a2b250cbe2c},{256,0x4af58111820db},{256,0x4b82b76064f02},{256,0x50498f385409a},{256,0x595ee6e6e5e13},{256,0x5c04d10a05771},{256,0x5f299cd1888c3},{256,0x6091321f30f42},{256,0x65b33e3d9784b},{256,0x66080dba069cf},{256,0x660d785ee1b92},{256,0x681671c70e742},{256,0x6b100e18e5c17},{256,0x6ba8608faa6a8},{256,0x6e09aa6abd0ec},{256,0x706a569511776},{256,0x7ba2dacd944dc},{256,0x7ce9b803f1915},{256,0x7da5b0fd0c9f5},{256,0x8bc9c59d2613e},{256,0xa4b1f4dd340d2},{256,0xa4ce72013e99a},{256,0xa94c4d95c8d87},{256,0xb435f4bbf7e6b},{256,0xbb8c576b180af},{256,0xd266b9f8fc08c},{256,0xe61dae274e40b},{256,0xe90bb1e34c3f2},{256,0xeac6387ae32e2},{256,0xeb6b8c393b634},{256,0xf0b96a4b2885d},{256,0xf505065539d77},{256,0xf607485d15a86},{256,0xf774c9f2df060},{256,0xfeb762d240282},
{257,0x1085297f36108},{257,0x10d152ba98650},{257,0x16780aad21968},{257,0x1c45b3ab1e086},{257,0x22cea327fa99d},{257,0x2a155e88a8ee9},{257,0x30fd6106c3435},{257,0x3320163902063},{257,0x4169819f1f871},{257,0x47e44e632039a},{257,0x4af58111820db},{257,0x4b82b76064f02},{257,0x503a2a12839c9},{257,0x5c04d10a05771},{257,0x5f299cd1888c3},{257,0x65b33e3d9784b},{257,0x66080dba069cf},{257,0x6b100e18e5c17},{257,0x6b5c375448160},{257,0x6ba8608faa6a8},{257,0x6e09aa6abd0ec},{257,0x7ba2dacd944dc},{257,0x7ce9b803f1915},{257,0x8bc9c59d2613e},{257,0xa4ce72013e99a},{257,0xab35c7ebe0c8f},{257,0xb435f4bbf7e6b},{257,0xbb8c576b180af},{257,0xc63345295a1b8},{257,0xc67f6e64bc700},{257,0xc6ed11f2456c6},{257,0xd01d67208d503},{257,0xd475e64977193},{257,0xd62a099b2ca0b},{257,0xe1a17ba680e97},{257,0xe90bb1e34c3f2},{257,0xeb6b8c393b634},{257,0xf0b96a4b2885d},{257,0xf0ce4839198da},
{258,0x1169a5315d0e1},{258,0x22cea327fa99d},{258,0x2a155e88a8ee9},{258,0x36e2a83199c80},{258,0x3984669d3f1b3},{258,0x3e72922e2a216},{258,0x4169819f1f871},{258,0x47e44e632039a},{258,0x4af58111820db},{258,0x4b82b76064f02},{258,0x537d290dc3c26},{258,0x6b100e18e5c17},{258,0x6e09aa6abd0ec},{258,0x713a64ed2a2ec},{258,0x775636d20d089},{258,0x8bc9c59d2613e},{258,0xab35c7ebe0c8f},{258,0xb435f4bbf7e6b},{258,0xba283b28942eb},{258,0xbb8c576b180af},{258,0xbf200dccfd65e},{258,0xcaebb8313c681},{258,0xd01d67208d503},{258,0xe90bb1e34c3f2},{258,0xf0b96a4b2885d},{258,0xf0ce4839198da},{258,0xf3eaf54f4572c},{258,0xfa1b01dbcfa88},
{259,0x113e41529adab},{259,0x14634183345b6},{259,0x1da9cfeda1e4a},{259,0x22cea327fa99d},{259,0x2a155e88a8ee9},{259,0x2e2984e29cda8},{259,0x3421d14721948},{259,0x3e3cd9a52167c},{259,0x3e72922e2a216},{259,0x4169819f1f871},{259,0x4af58111820db},{259,0x4b82b76064f02},{259,0x607bd444290ac},{259,0x6b100e18e5c17},{259,0x6e09aa6abd0ec},{259,0x775636d20d089},{259,0x8bc9c59d2613e},{259,0x8e30995ff1066},{259,0x93bf2208bb304},{259,0x9971471e9289c},{259,0xab35c7ebe0c8f},{259,0xb215ccfb79d65},{259,0xb435f4bbf7e6b},{259,0xba283b28942eb},{259,0xbb8c576b180af},{259,0xbf90d6769a276},{259,0xc0630d698ed38},{259,0xc7b0135245c22},{259,0xcaebb8313c681},{259,0xd01d67208d503},{259,0xd7f72b030b79c},{259,0xe90bb1e34c3f2},{259,0xf0ce4839198da},{259,0xf4b6536e30edd},
{260,0x14828ee39c852},{260,0x16a55ccbcd46b},{260,0x1da9cfeda1e4a},{260,0x2ed3f3353471f},{260,0x32c70f28610f2},{260,0x3421d14721948},{260,0x396faf590eb71},{260,0x3e3cd9a52167c},{260,0x4812b4d898697},{260,0x4b82b76064f02},{260,0x54a673df0394a},{260,0x6e09aa6abd0ec},{260,0x749ab62ad32a3},{260,0x775636d20d089},{260,0x93bf2208bb304},{260,0x9adcdede81687},{260,0xa50afbedd5043},{260,0xafc9aaef77eea},{260,0xbb8c576b180af},{260,0xbe6569f603b7b},{260,0xc63345295a1b8},{260,0xc7b0135245c22},{260,0xd01d67208d503},{260,0xd7f72b030b79c},{260,0xd9574eedb8720},{260,0xe462b99e1283b},{260,0xe90bb1e34c3f2},{260,0xf0ce4839198da},{260,0xf48347c60a1bd},
{261,0x4986b99bb2f3},{261,0x14828ee39c852},{261,0x16a55ccbcd46b},{261,0x1be00b39d8513},{261,0x1d0a36dfde39d},{261,0x1da9cfeda1e4a},{261,0x2caa8563a5a09},{261,0x2ed3f3353471f},{261,0x32c70f28610f2},{261,0x3421d14721948},{261,0x3680ed23aff88},{261,0x4959498ed61ec},{261,0x4b82b76064f02},{261,0x6918da1b72a8d},{261,0x6a72ce2695ac5},{261,0x775636d20d089},{261,0x7ad07d7856af3},{261,0x7d1440ea091fe},{261,0x926d03270eb11},{261,0xa0e5c0547b34e},{261,0xa50afbedd5043},{261,0xafc9aaef77eea},{261,0xb1453523ce00a},{261,0xb2b47f31f65bf},{261,0xc7b0135245c22},{261,0xccdf426637162},{261,0xd22d20782438b},{261,0xd9574eedb8720},{261,0xe8901394a3321},{261,0xe90bb1e34c3f2},{261,0xf0ce4839198da},{261,0xf48347c60a1bd},
{262,0x4986b99bb2f3},{262,0x57670fff6245},{262,0x14828ee39c852},{262,0x16a55ccbcd46b},{262,0x1da9cfeda1e4a},{262,0x235cd4f07c46f},{262,0x2441356e26547},{262,0x2d7fbf59b1448},{262,0x2ed3f3353471f},{262,0x3249a573ba7e0},{262,0x3421d14721948},{262,0x3f28d6d0e50c9},{262,0x3fdf1b739ff7c},{262,0x46fdc9ceed27a},{262,0x4b82b76064f02},{262,0x5030096440a0a},{262,0x68ab938350b01},{262,0x6918da1b72a8d},{262,0x6e590460a1d07},{262,0x7406753df2f0c},{262,0x79b3e61b44112},{262,0x7d033dd804fa5},{262,0x7e63f64219786},{262,0x7f6156f895317},{262,0x926d03270eb11},{262,0x93a79aae64c31},{262,0xa0e5c0547b34e},{262,0xa9d6724bc9540},{262,0xaa524bbc84ced},{262,0xaf999b8b34997},{262,0xb89cfa10ea6d9},{262,0xc7e31efa6c942},{262,0xccdf426637162},{262,0xe717590cea8cc},{262,0xf0ce4839198da},
{263,0x1286911eea88},{263,0x57670fff6245},{263,0x14828ee39c852},{263,0x16a55ccbcd46b},{263,0x2ed3f3353471f},{263,0x302367410929d},{263,0x380e5ef710d9c},{263,0x3b400c98c7ad5},{263,0x3f1e54fdfbe43},{263,0x46075f6578c4f},{263,0x4b82b76064f02},{263,0x5030096440a0a},{263,0x57a340eb5d4f1},{263,0x5ab4279c0bdd0},{263,0x6918da1b72a8d},{263,0x6e590460a1d07},{263,0x7406753df2f0c},{263,0x79b3e61b44112},{263,0x7e63f64219786},{263,0x8608a0c4a5a52},{263,0x9069a99088928},{263,0x97d495b2f3bc8},{263,0xa0e5c0547b34e},{263,0xa7aea3d52ce98},{263,0xa956d52768470},{263,0xa96d6850bce99},{263,0xa9d010d6c479c},{263,0xacccdde31e343},{263,0xaf999b8b34997},{263,0xb89cfa10ea6d9},{263,0xbf1bae98bea2e},{263,0xc3fe8cb0b2e0d},{263,0xccdf426637162},{263,0xccf2ec8b4f661},{263,0xe4c61612eabc0},{263,0xe717590cea8cc},{263,0xf5b58db6f307d},
{264,0x1286911eea88},{264,0x1339e5f2cb5c7},{264,0x14567e992aa6e},{264,0x14828ee39c852},{264,0x16a55ccbcd46b},{264,0x1be00b39d8513},{264,0x2adc1772595f3},{264,0x3680ed23aff88},{264,0x4b82b76064f02},{264,0x5030096440a0a},{264,0x57a340eb5d4f1},{264,0x5ab4279c0bdd0},{264,0x5cf81c97dd863},{264,0x6cd77d09eec40},{264,0x6ebc533744edc},{264,0x7406753df2f0c},{264,0x7dccf3f84388f},{264,0x8421286c9bf6a},{264,0x8b1c45fa869a7},{264,0x9069a99088928},{264,0x9366769ce24cf},{264,0x95e1eff0ebf1d},{264,0xa0e5c0547b34e},{264,0xa26754067d1ee},{264,0xa7aea3d52ce98},{264,0xa956d52768470},{264,0xa96d6850bce99},{264,0xc3fe8cb0b2e0d},{264,0xc9fe2a94a38e9},{264,0xcab5d494a844c},{264,0xccdf426637162},{264,0xde8fb110a8d81},{264,0xe4c61612eabc0},{264,0xe59346884977a},{264,0xe717590cea8cc},{264,0xf47684dc00675},{264,0xfeb9f82b4df87},
{265,0xfb0cf7f39f97},{265,0xfec0ad9d0cc2},{265,0x1339e5f2cb5c7},{265,0x14828ee39c852},{265,0x2adc1772595f3},{265,0x324343feb5a3c},{265,0x3680ed23aff88},{265,0x39c1a6129ad02},{265,0x3aa42510ada19},{265,0x4139a6b17b223},{265,0x5030096440a0a},{265,0x57a340eb5d4f1},{265,0x5cf81c97dd863},{265,0x6d3ad97ec6fc5},{265,0x6e0cdb253f7be},{265,0x7406753df2f0c},{265,0x744b1f90d0fb1},{265,0x7584dbc41fce0},{265,0x83cb88cdfe83d},{265,0x8b1c45fa869a7},{265,0x8c09942f569a6},{265,0xa0e5c0547b34e},{265,0xb3e969236050a},{265,0xc3fe8cb0b2e0d},{265,0xc63a5cf40bd2c},{265,0xcab5d494a844c},{265,0xd820dfa215156},{265,0xe3f157178ba04},{265,0xe4c61612eabc0},{265,0xe59346884977a},{265,0xe717590cea8cc},
{266,0x739fcb3a1898},{266,0xfb0cf7f39f97},{266,0xfec0ad9d0cc2},{266,0x14828ee39c852},{266,0x2adc1772595f3},{266,0x2f13b343927c6},{266,0x3aa42510ada19},{266,0x4139a6b17b223},{266,0x41f9400be1de7},{266,0x48b2737efc0f9},{266,0x4c0b7878902dc},{266,0x4f2b15f6a8fb7},{266,0x516f123f33412},{266,0x57a340eb5d4f1},{266,0x6e0cdb253f7be},{266,0x7406753df2f0c},{266,0x744b1f90d0fb1},{266,0x7a6d21037e76e},{266,0x83cb88cdfe83d},{266,0x8b1c45fa869a7},{266,0x8c09942f569a6},{266,0xa0e5c0547b34e},{266,0xa613aa7004031},{266,0xb5cd2db4e28c0},{266,0xc3fe8cb0b2e0d},{266,0xcab5d494a844c},{266,0xd58039837b476},{266,0xd793ce8e33417},{266,0xd820dfa215156},{266,0xd8684cbee15b3},{266,0xe3f157178ba04},{266,0xe4c61612eabc0},{266,0xe5297287c2f45},{266,0xf48413f4aab72},{266,0xf920d5709ecf5},
{267,0xcef3dcd7711b},{267,0xdde45cb9f075},{267,0x13b6fa2bb156a},{267,0x2adc1772595f3},{267,0x2f13b343927c6},{267,0x4139a6b17b223},{267,0x45d59ce1f1482},{267,0x48b2737efc0f9},{267,0x4f2b15f6a8fb7},{267,0x516f123f33412},{267,0x57a340eb5d4f1},{267,0x6d23adf897caf},{267,0x79e4424b80243},{267,0x7a6d21037e76e},{267,0x8421286c9bf6a},{267,0x8b1c45fa869a7},{267,0x9868c745bd74e},{267,0x9ab034ab5f70b},{267,0xa2574409438c6},{267,0xa613aa7004031},{267,0xa9ce787983433},{267,0xb6b5fa80b7e53},{267,0xb8c0de4325b94},{267,0xb9828bde0f79c},{267,0xc3fe8cb0b2e0d},{267,0xcab5d494a844c},{267,0xd58039837b476},{267,0xdd2327cb3301b},{267,0xe4c61612eabc0},{267,0xe5297287c2f45},{267,0xe58022293ae8e},{267,0xef7a617035e55},{267,0xf48413f4aab72},{267,0xf920d5709ecf5},
{268,0xcef3dcd7711b},{268,0xdde45cb9f075},{268,0x184d8b28ac51c},{268,0x1f4004845b9bb},{268,0x2714723f7919f},{268,0x28f2a572d9555},{268,0x2c4721e63ae7d},{268,0x31a6e96f2138a},{268,0x32930635724be},{268,0x3a45f8b8f0cea},{268,0x4139a6b17b223},{268,0x4f2b15f6a8fb7},{268,0x516f123f33412},{268,0x539d035f0877d},{268,0x57a340eb5d4f1},{268,0x68ee693e28f41},{268,0x75840f957f32b},{268,0x7a6d21037e76e},{268,0x7c1ff9f98f32b},{268,0x88320f9741842},{268,0x8b1c45fa869a7},{268,0x961561bd52bc6},{268,0x9ab034ab5f70b},{268,0xa613aa7004031},{268,0xb6b5fa80b7e53},{268,0xb86bfba5540c3},{268,0xb8c4db2c48c1a},{268,0xb9828bde0f79c},{268,0xbe976eac54187},{268,0xc3fe8cb0b2e0d},{268,0xd2e612b527c18},{268,0xd4c445e887fcd},{268,0xd58039837b476},{268,0xd7eb67f8ab5a4},{268,0xdd2327cb3301b},{268,0xe4c61612eabc0},{268,0xe5060e005308f},{268,0xe5297287c2f45},{268,0xf1869e69f7d73},{268,0xf920d5709ecf5},
{269,0xad6cbcaab399},{269,0xcef3dcd7711b},{269,0xdde45cb9f075},{269,0x119a57b697587},{269,0x184d8b28ac51c},{269,0x1a01d8067815d},{269,0x2325003091d14},{269,0x2714723f7919f},{269,0x28f2a572d9555},{269,0x2f1194054eccf},{269,0x34dadc8afe374},{269,0x3a45f8b8f0cea},{269,0x3b665784e3fdb},{269,0x4139a6b17b223},{269,0x498bd54860434},{269,0x4f2b15f6a8fb7},{269,0x516f123f33412},{269,0x5315b218dd860},{269,0x539d035f0877d},{269,0x560a05394fd7c},{269,0x57a340eb5d4f1},{269,0x624a20262b764},{269,0x68ee693e28f41},{269,0x7a6d21037e76e},{269,0x839e1ffa0ae69},{269,0x8b1c45fa869a7},{269,0x96767af76dea7},{269,0x9a1891fb7e023},{269,0x9ab034ab5f70b},{269,0x9c633af365b61},{269,0xa613aa7004031},{269,0xb8c4db2c48c1a},{269,0xb98c40b52065f},{269,0xbd6bf82c45fff},{269,0xbe976eac54187},{269,0xc3fe8cb0b2e0d},{269,0xc5d3787c26bd6},{269,0xdac2958d555c0},{269,0xe4c61612eabc0},{269,0xe5297287c2f45},{269,0xf1869e69f7d73},{269,0xf920d5709ecf5},
{270,0x43d99f1d3f4b},{270,0xcef3dcd7711b},{270,0xdde45cb9f075},{270,0x137768864e307},{270,0x184d8b28ac51c},{270,0x1a01d8067815d},{270,0x2714723f7919f},{270,0x2adc0333020e9},{270,0x34270c787a1e1},{270,0x34dadc8afe374},{270,0x4139a6b17b223},{270,0x498bd54860434},{270,0x560a05394fd7c},{270,0x57a340eb5d4f1},{270,0x683b931e67275},{270,0x6bdf15e5d2374},{270,0x74a1d3f9137ed},{270,0x7988105b00d6e},{270,0x839e1ffa0ae69},{270,0x875d32fa48c08},{270,0x8ebb5cb3c2063},{270,0x96767af76dea7},{270,0x9a1891fb7e023},{270,0xa26737adcfae0},{270,0xad3a83d41065a},{270,0xb98c40b52065f},{270,0xbe976eac54187},{270,0xc0c656bd94553},{270,0xc3f3aceb854b7},{270,0xc3fe8cb0b2e0d},{270,0xc5d3787c26bd6},{270,0xdac2958d555c0},{270,0xe4c61612eabc0},{270,0xe5297287c2f45},{270,0xf1869e69f7d73},{270,0xf920d5709ecf5},
{271,0x43d99f1d3f4b},{271,0x448f426d0dc0},{271,0xdde45cb9f075},{271,0x13788ae9f793c},{271,0x1a01d8067815d},{271,0x1d467e94b856e},{271,0x208b2522f897e},{271,0x2714723f7919f},{271,0x2adc0333020e9},{271,0x2f39e794d9d8b},{271,0x4139a6b17b223},{271,0x498bd54860434},{271,0x57a340eb5d4f1},{271,0x683b931e67275},{271,0x74a1d3f9137ed},{271,0x7fb2721acb6f4},{271,0x8296a9ce8036d},{271,0x875d32fa48c08},{271,0x8ebb5cb3c2063},{271,0x92f931a8ef336},{271,0xbe976eac54187},{271,0xbf8f4ffde8859},{271,0xc3fe8cb0b2e0d},{271,0xc5ea688e05d57},{271,0xc9181f0a66fe6},{271,0xda515069fe5f1},{271,0xdac2958d555c0},{271,0xdd472c825afc8},{271,0xe5297287c2f45},{271,0xecb8f8c0a873a},{271,0xf02c929712c82},{271,0xf1869e69f7d73},
{272,0x181d6965dac},{272,0x448f426d0dc0},{272,0x80807270eb5f},{272,0xb0b7553b2976},{272,0xdde45cb9f075},{272,0x16bd317837d4d},{272,0x1a01d8067815d},{272,0x1d467e94b856e},{272,0x208b2522f897e},{272,0x23cfcbb138d8f},{272,0x249cff79e194f},{272,0x2adc0333020e9},{272,0x2f39e794d9d8b},{272,0x3a74dfc00ad2f},{272,0x4139a6b17b223},{272,0x498bd54860434},{272,0x61e674f7de3d2},{272,0x61e8283ffdac8},{272,0x6cb0e88a2a02f},{272,0x7fb2721acb6f4},{272,0x8296a9ce8036d},{272,0x875d32fa48c08},{272,0x8a31ad0e4e668},{272,0x8ebb5cb3c2063},{272,0x99a898ddd56a2},{272,0xabe9bddf14825},{272,0xbe976eac54187},{272,0xbf8f4ffde8859},{272,0xc5ea688e05d57},{272,0xc9181f0a66fe6},{272,0xda515069fe5f1},{272,0xdac2958d555c0},{272,0xe5297287c2f45},{272,0xf1869e69f7d73},{272,0xfa21de494dd64},
{273,0x448f426d0dc0},{273,0x80807270eb5f},{273,0x126b7194ca456},{273,0x15385a48c7059},{273,0x1a01d8067815d},{273,0x1ac3662843f7a},{273,0x1c926ec5ef03d},{273,0x1d467e94b856e},{273,0x208b2522f897e},{273,0x230d397bc3a26},{273,0x249cff79e194f},{273,0x2adc0333020e9},{273,0x36ce8d5ef8e48},{273,0x4139a6b17b223},{273,0x498bd54860434},{273,0x61e674f7de3d2},{273,0x64981e39e66c9},{273,0x6c9b737cbcf33},{273,0x7fb2721acb6f4},{273,0x8296a9ce8036d},{273,0x875d32fa48c08},{273,0x8a31ad0e4e668},{273,0x994da88c17ec3},{273,0x99a898ddd56a2},{273,0xa8a51750d4414},{273,0xabe9bddf14825},{273,0xaf2e646d54c35},{273,0xda515069fe5f1},{273,0xdac2958d555c0},{273,0xe2d2756fa7dab},{273,0xe5160a78f0b95},{273,0xe5297287c2f45},{273,0xec9ae86ac88b7},{273,0xf1869e69f7d73},{273,0xf33b5d8442980},{273,0xf855585f3f09c},{273,0xfa21de494dd64},
{274,0x2f73854a286e},{274,0x1033e45bb752c},{274,0x15385a48c7059},{274,0x19459855997b8},{274,0x1ac3662843f7a},{274,0x1c926ec5ef03d},{274,0x1d467e94b856e},{274,0x208b2522f897e},{274,0x230d397bc3a26},{274,0x249cff79e194f},{274,0x2a25de061f813},{274,0x2adc0333020e9},{274,0x2f39e794d9d8b},{274,0x364c876211f2d},{274,0x36ce8d5ef8e48},{274,0x3e54ed90111a6},{274,0x401428883c19b},{274,0x4b60a8c16e3a3},{274,0x56b95680c122b},{274,0x64981e39e66c9},{274,0x6c9b737cbcf33},{274,0x700a7114fce42},{274,0x7b08617a104ee},{274,0x7fb2721acb6f4},{274,0x8296a9ce8036d},{274,0x835f7c595f6e6},{274,0x875d32fa48c08},{274,0x994da88c17ec3},{274,0xa8a51750d4414},{274,0xabe9bddf14825},{274,0xae73fd1c3f4af},{274,0xaf9c088d0ee0d},{274,0xb8fc581815867},{274,0xbb77e2b018335},{274,0xda515069fe5f1},{274,0xe2d2756fa7dab},{274,0xe5160a78f0b95},{274,0xe5297287c2f45},{274,0xf1869e69f7d73},{274,0xf33b5d8442980},{274,0xf855585f3f09c},
{275,0xfcdeb957551f},{275,0x1361d5297d060},{275,0x19459855997b8},{275,0x1ac3662843f7a},{275,0x1d467e94b856e},{275,0x208b2522f897e},{275,0x249cff79e194f},{275,0x2c8c29dc2a890},{275,0x2f39e794d9d8b},{275,0x35708bb61dd1b},{275,0x36ce8d5ef8e48},{275,0x3e54ed90111a6},{275,0x40caacd9e198a},{275,0x4b60a8c16e3a3},{275,0x56b95680c122b},{275,0x64981e39e66c9},{275,0x6ca80027a0acc},{275,0x700a7114fce42},{275,0x7fb2721acb6f4},{275,0x8296a9ce8036d},{275,0x835f7c595f6e6},{275,0x8db148ed81561},{275,0x988553755fc0e},{275,0x9bfdc8961b62d},{275,0xa474d88c93668},{275,0xa8a51750d4414},{275,0xabe9bddf14825},{275,0xae73fd1c3f4af},{275,0xaf9c088d0ee0d},{275,0xbb77e2b018335},{275,0xc95398df56cb9},{275,0xe5160a78f0b95},{275,0xecb21067c215f},{275,0xecbe1851e2002},{275,0xf1869e69f7d73},{275,0xf33b5d8442980},{275,0xf533a8a88bd65},{275,0xf855585f3f09c},
{276,0xfcdeb957551f},{276,0x1361d5297d060},{276,0x19459855997b8},{276,0x1ac3662843f7a},{276,0x1d467e94b856e},{276,0x208b2522f897e},{276,0x249cff79e194f},{276,0x35708bb61dd1b},{276,0x36ce8d5ef8e48},{276,0x3ac34363c6ddb},{276,0x40caacd9e198a},{276,0x4291a1ae6f824},{276,0x4b60a8c16e3a3},{276,0x61fee827c9a47},{276,0x64981e39e66c9},{276,0x6814c300c2b15},{276,0x6ca80027a0acc},{276,0x700a7114fce42},{276,0x73af38abc4ce8},{276,0x7a71fb073305a},{276,0x7fb2721acb6f4},{276,0x8296a9ce8036d},{276,0x869e9ac55d56f},{276,0x8db148ed81561},{276,0x988553755fc0e},{276,0x9e117541d04e6},{276,0xa474d88c93668},{276,0xa8a51750d4414},{276,0xabe9bddf14825},{276,0xae73fd1c3f4af},{276,0xaf9c088d0ee0d},{276,0xb987cad206a30},{276,0xbb77e2b018335},{276,0xc95398df56cb9},{276,0xe5160a78f0b95},{276,0xecb21067c215f},{276,0xecbe1851e2002},{276,0xeffe1c85fb3d3},{276,0xf33b5d8442980},{276,0xf4e99b199c39b},{276,0xf533a8a88bd65},{276,0xf855585f3f09c},
{277,0xa9a269c5a413},{277,0x1361d5297d060},{277,0x1ac3662843f7a},{277,0x1c46491b8c3b2},{277,0x25c308626101a},{277,0x30e265ea39dd1},{277,0x35708bb61dd1b},{277,0x40caacd9e198a},{277,0x413af154e394c},{277,0x4291a1ae6f824},{277,0x4311f6129a8bf},{277,0x47394f6a04631},{277,0x488ed8701f7c6},{277,0x498a23a2243aa},{277,0x4b60a8c16e3a3},{277,0x4ba7554ace450},{277,0x5440dd72a5277},{277,0x64981e39e66c9},{277,0x6ca80027a0acc},{277,0x700a7114fce42},{277,0x7681d87e59717},{277,0x77d8188aa57d4},{277,0x7b08617a104ee},{277,0x8296a9ce8036d},{277,0x869e9ac55d56f},{277,0x9e117541d04e6},{277,0xae73fd1c3f4af},{277,0xaf9c088d0ee0d},{277,0xbb77e2b018335},{277,0xd050aa9bed93d},{277,0xd9ca79d894629},{277,0xdb02d4a38c70c},{277,0xe5160a78f0b95},{277,0xecb21067c215f},{277,0xef7d946b26dad},{277,0xf4e99b199c39b},{277,0xf533a8a88bd65},{277,0xfb583da9bf042},
{278,0xa9a269c5a413},{278,0xd340918e7c99},{278,0x122748a5ea3dc},{278,0x1361d5297d060},{278,0x13f3b5ce4a8c0},{278,0x35708bb61dd1b},{278,0x39ba03cc54afa},{278,0x3c04bf59ee3ca},{278,0x40caacd9e198a},{278,0x4291a1ae6f824},{278,0x47394f6a04631},{278,0x488ed8701f7c6},{278,0x4b60a8c16e3a3},{278,0x4b693f908a54d},{278,0x4ba7554ace450},{278,0x64981e39e66c9},{278,0x6f6e110dd8f38},{278,0x700a7114fce42},{278,0x77d8188aa57d4},{278,0x8296a9ce8036d},{278,0x9e117541d04e6},{278,0xae73fd1c3f4af},{278,0xb53c86a5824d2},{278,0xb5dac09372a3e},{278,0xbb77e2b018335},{278,0xc740a89a51e14},{278,0xd050aa9bed93d},{278,0xdb02d4a38c70c},{278,0xe27c27fc6330f},{278,0xe3da7285a7436},{278,0xecb21067c215f},{278,0xf4e99b199c39b},{278,0xf533a8a88bd65},
{279,0x59247dd3e37b},{279,0xa9a269c5a413},{279,0xbe717daa1056},{279,0x122748a5ea3dc},{279,0x13f3b5ce4a8c0},{279,0x2978fabfe5eb3},{279,0x2e75fc65d0a05},{279,0x31985b64038c6},{279,0x369bea0c5d069},{279,0x3c45ea04187c5},{279,0x3e9fd85768e8b},{279,0x40caacd9e198a},{279,0x4291a1ae6f824},{279,0x4525a2be4f778},{279,0x47394f6a04631},{279,0x4b60a8c16e3a3},{279,0x4b693f908a54d},{279,0x4ba7554ace450},{279,0x581c5ef3dd461},{279,0x64981e39e66c9},{279,0x6f6e110dd8f38},{279,0x77d8188aa57d4},{279,0x7d0bdd83c08e0},{279,0x8cea526fb45ce},{279,0x93360a1a0b62d},{279,0x97f7687fcbe06},{279,0x9e117541d04e6},{279,0xb53c86a5824d2},{279,0xb5dac09372a3e},{279,0xb641b0b522db3},{279,0xbb77e2b018335},{279,0xc740a89a51e14},{279,0xc7fd20ffd56ff},{279,0xdb02d4a38c70c},{279,0xdd8ebadb503d7},{279,0xe27c27fc6330f},{279,0xe311483c290a4},{279,0xe3da7285a7436},{279,0xf0f17e4a6bfad},{279,0xf533a8a88bd65},
{280,0x39c75070946e},{280,0x59247dd3e37b},{280,0xa9a269c5a413},{280,0x1a3f6d78a191f},{280,0x2978fabfe5eb3},{280,0x2e75fc65d0a05},{280,0x3e9fd85768e8b},{280,0x40caacd9e198a},{280,0x40fe4966e5a06},{280,0x41df9832a3415},{280,0x4291a1ae6f824},{280,0x47394f6a04631},{280,0x4b60a8c16e3a3},{280,0x4b693f908a54d},{280,0x4ba7554ace450},{280,0x602567767f6dd},{280,0x6357db626f49f},{280,0x6ae3d5e43d728},{280,0x768b274c5eb91},{280,0x77d8188aa57d4},{280,0x7d0bdd83c08e0},{280,0x87e7c08538aed},{280,0x91d4d2872e3b5},{280,0x93360a1a0b62d},{280,0x9e117541d04e6},{280,0xb342938cd60e5},{280,0xb641b0b522db3},{280,0xbb883e4fd9531},{280,0xd9ca79d894629},{280,0xdb02d4a38c70c},{280,0xe27c27fc6330f},{280,0xe311483c290a4},{280,0xe3da7285a7436},{280,0xfc7f00d9ea84b},
{281,0x1167cf9686bf6},{281,0x1a3f6d78a191f},{281,0x2978fabfe5eb3},{281,0x2c398ab1d46cc},{281,0x3e9fd85768e8b},{281,0x40caacd9e198a},{281,0x41681cac55b83},{281,0x47394f6a04631},{281,0x4b693f908a54d},{281,0x4ba7554ace450},{281,0x527bea721508e},{281,0x602567767f6dd},{281,0x6357db626f49f},{281,0x66fff4af8545d},{281,0x768b274c5eb91},{281,0x77d8188aa57d4},{281,0x7a70c48645e1f},{281,0x7d0bdd83c08e0},{281,0x7d3df17b6d38b},{281,0x87e7c08538aed},{281,0x91d4d2872e3b5},{281,0x93360a1a0b62d},{281,0x9e117541d04e6},{281,0x9e912a9d81d64},{281,0xac83a7a460f50},{281,0xb12ee6e12122c},{281,0xb641b0b522db3},{281,0xcfb2bdb355a2e},{281,0xd12dba9c476dc},{281,0xdb02d4a38c70c},{281,0xdb1acc9e3cfa4},{281,0xdbfb71c5015c0},{281,0xe27c27fc6330f},{281,0xfe1ee0c787b10},{281,0xff1a19d76530c},
{282,0xa81e489d3777},{282,0xa82224ec8032},{282,0x1323025cfbd67},{282,0x237d3244c9f7f},{282,0x2978fabfe5eb3},{282,0x34b4b46c34636},{282,0x3e9fd85768e8b},{282,0x474db1ee28071},{282,0x4ba7554ace450},{282,0x4edc163469b2f},{282,0x524eecd849111},{282,0x5c884e6ed7655},{282,0x602567767f6dd},{282,0x623ba072b8cde},{282,0x66fff4af8545d},{282,0x772e4a6a37a34},{282,0x77d8188aa57d4},{282,0x7d0bdd83c08e0},{282,0x7d3df17b6d38b},{282,0x87e7c08538aed},{282,0x883eb5469b9dc},{282,0x91d4d2872e3b5},{282,0x93360a1a0b62d},{282,0x9e117541d04e6},{282,0x9e912a9d81d64},{282,0x9f807ea005938},{282,0xa10f597f5e480},{282,0xac83a7a460f50},{282,0xb641b0b522db3},{282,0xbb91463ba9bc9},{282,0xc7d2b2d5d383d},{282,0xcd377a140ef84},{282,0xcfb2bdb355a2e},{282,0xd41d275bcdb48},{282,0xdb1acc9e3cfa4},{282,0xe27c27fc6330f},{282,0xe947359e3ee3f},{282,0xf024e70ba1741},{282,0xf76721761da8c},
{283,0xa81e489d3777},{283,0xa82224ec8032},{283,0xc3b8da0b7b23},{283,0x1323025cfbd67},{283,0x159e46dd79399},{283,0x20b7623ffa6c1},{283,0x237d3244c9f7f},{283,0x2978fabfe5eb3},{283,0x34b4b46c34636},{283,0x36ecdff62160b},{283,0x44839248cb989},{283,0x4d94136320270},{283,0x4edc163469b2f},{283,0x53b98cb253ba7},{283,0x5646667b6cf05},{283,0x5c884e6ed7655},{283,0x602567767f6dd},{283,0x623ba072b8cde},{283,0x6aad34c4369f5},{283,0x883eb5469b9dc},{283,0x91d4d2872e3b5},{283,0x93360a1a0b62d},{283,0x94c7c29410c18},{283,0x9e117541d04e6},{283,0x9f807ea005938},{283,0x9f906760974b3},{283,0xabf8b97cf8a05},{283,0xac83a7a460f50},{283,0xb641b0b522db3},{283,0xbb91463ba9bc9},{283,0xc7d2b2d5d383d},{283,0xcafc2609cfbf8},{283,0xcd377a140ef84},{283,0xd41d275bcdb48},{283,0xdccfe36fbf245},{283,0xe131a3bff6b42},{283,0xe947359e3ee3f},{283,0xf024e70ba1741},{283,0xf76721761da8c},
{284,0x2a9ae7e66e24},{284,0xc3b8da0b7b23},{284,0x1167cf9686bf6},{284,0x1323025cfbd67},{284,0x20b7623ffa6c1},{284,0x2344d1b1b540a},{284,0x2978fabfe5eb3},{284,0x2af7ecdeace80},{284,0x3272a7788fd81},{284,0x34b4b46c34636},{284,0x4d94136320270},{284,0x4edc163469b2f},{284,0x53b98cb253ba7},{284,0x55c1c37c286f3},{284,0x59ef7a1469942},{284,0x602567767f6dd},{284,0x623ba072b8cde},{284,0x6484b1103e9b3},{284,0x6b7c897a8ea3a},{284,0x72262f3133ed0},{284,0x883eb5469b9dc},{284,0x917c9ec81bb3c},{284,0x91d4d2872e3b5},{284,0x94501707ab9e7},{284,0x9a1bb761ca1f1},{284,0x9e117541d04e6},{284,0xa0a5b51c38db4},{284,0xac83a7a460f50},{284,0xad06ea75962e8},{284,0xbc2dd23b0b1c7},{284,0xc1cd92670ab98},{284,0xc43f8cb4b1288},{284,0xcd377a140ef84},{284,0xceb2761bca0aa},{284,0xd26c3decf4504},{284,0xd5d692adbd639},{284,0xdc8d2eb84f241},{284,0xe131a3bff6b42},{284,0xe947359e3ee3f},
{285,0x2a9ae7e66e24},{285,0x8c8b6fcd8541},{285,0xc3b8da0b7b23},{285,0x1323025cfbd67},{285,0x20b7623ffa6c1},{285,0x3272a7788fd81},{285,0x34b4b46c34636},{285,0x3ac1fd3b84a37},{285,0x46fed5e812433},{285,0x4d225dac48555},{285,0x4d22aae27a03e},{285,0x4edc163469b2f},{285,0x53b98cb253ba7},{285,0x55c1c37c286f3},{285,0x602567767f6dd},{285,0x623ba072b8cde},{285,0x6484b1103e9b3},{285,0x6b7c897a8ea3a},{285,0x6da4b16640a5c},{285,0x72c72f9cc0fae},{285,0x88e9d00be8a7c},{285,0x917c9ec81bb3c},{285,0x9204996ce1c3b},{285,0x92595471138b4},{285,0x94501707ab9e7},{285,0xa0a5b51c38db4},{285,0xa657169d42abe},{285,0xa694ae604ce82},{285,0xad06ea75962e8},{285,0xc43f8cb4b1288},{285,0xceb2761bca0aa},{285,0xd26c3decf4504},{285,0xd4f9dd04c58c1},{285,0xd5d692adbd639},{285,0xde75ab476bcee},{285,0xe131a3bff6b42},{285,0xe947359e3ee3f},
{286,0x2a9ae7e66e24},{286,0xc3b8da0b7b23},{286,0xd184349af89b},{286,0x1323025cfbd67},{286,0x159ca364e6f1c},{286,0x20b7623ffa6c1},{286,0x23e7058a3a0fc},{286,0x3272a7788fd81},{286,0x34b4b46c34636},{286,0x4d22aae27a03e},{286,0x512cb2e93a849},{286,0x53b98cb253ba7},{286,0x55c1c37c286f3},{286,0x5d09f6765bab2},{286,0x623ba072b8cde},{286,0x6484b1103e9b3},{286,0x709ab552be9f2},{286,0x7b6723926ed2f},{286,0x88e9d00be8a7c},{286,0x917c9ec81bb3c},{286,0x9204996ce1c3b},{286,0x92595471138b4},{286,0x94501707ab9e7},{286,0xa39d31be42e1b},{286,0xa694ae604ce82},{286,0xbe9534a78aa00},{286,0xc43f8cb4b1288},{286,0xceb2761bca0aa},{286,0xd26c3decf4504},{286,0xd4e6a15d03827},{286,0xd5d692adbd639},{286,0xd79e397362019},{286,0xde75ab476bcee},{286,0xded818b12003a},{286,0xe131a3bff6b42},{286,0xe947359e3ee3f},{286,0xf6b87c231a783},
{287,0xa742d78f2966},{287,0xd184349af89b},{287,0x1167cf9686bf6},{287,0x1323025cfbd67},{287,0x159ca364e6f1c},{287,0x183cb5ef2e423},{287,0x1ab60d2bcfbf3},{287,0x1db1182824361},{287,0x20b7623ffa6c1},{287,0x23e7058a3a0fc},{287,0x2d1d771614c6d},{287,0x3272a7788fd81},{287,0x336e4787a7c87},{287,0x34b4b46c34636},{287,0x4e0f42e9349f8},{287,0x53b98cb253ba7},{287,0x55c1c37c286f3},{287,0x6484b1103e9b3},{287,0x71776afbb676a},{287,0x72262f3133ed0},{287,0x7404d1dcffac7},{287,0x7b29a1bb97300},{287,0x7b6723926ed2f},{287,0x85087075f8ecd},{287,0x88e9d00be8a7c},{287,0x917c9ec81bb3c},{287,0x9204996ce1c3b},{287,0x94501707ab9e7},{287,0x97bf3f361ac7f},{287,0x9a1bb761ca1f1},{287,0xa39d31be42e1b},{287,0xa694ae604ce82},{287,0xb354ef4dcaf58},{287,0xb56a1d8a7f085},{287,0xbda5e7859053d},{287,0xd26c3decf4504},{287,0xd5d692adbd639},{287,0xd79e397362019},{287,0xde75ab476bcee},{287,0xded818b12003a},{287,0xe131a3bff6b42},{287,0xf5dbc67a22a0b},
{288,0x2acdde30c73e},{288,0xa742d78f2966},{288,0x1167cf9686bf6},{288,0x124dbcab1a355},{288,0x159ca364e6f1c},{288,0x183cb5ef2e423},{288,0x28cdeac93d912},{288,0x2d1d771614c6d},{288,0x3272a7788fd81},{288,0x336e4787a7c87},{288,0x3f9d5f1e072d3},{288,0x4393ea1cfdc17},{288,0x43e1694b0d6f6},{288,0x53b98cb253ba7},{288,0x55c1c37c286f3},{288,0x63df2f47a9b37},{288,0x6484b1103e9b3},{288,0x6d27deaedf410},{288,0x7404d1dcffac7},{288,0x7b6723926ed2f},{288,0x85087075f8ecd},{288,0x88e9d00be8a7c},{288,0x9204996ce1c3b},{288,0x97a0735495a9d},{288,0xa694ae604ce82},{288,0xa7d54079390bc},{288,0xae5354f4ad773},{288,0xb181d29480f0d},{288,0xd26c3decf4504},{288,0xd314fbdee348b},{288,0xd79e397362019},{288,0xded818b12003a},{288,0xe131a3bff6b42},{288,0xf5dbc67a22a0b},{288,0xfe0d8c05a2e06},
{289,0x4031343606d0},{289,0xa742d78f2966},{289,0xfa5d7754fb92},{289,0x124dbcab1a355},{289,0x159ca364e6f1c},{289,0x2348a4f251cf7},{289,0x2cbf0657fa309},{289,0x3272a7788fd81},{289,0x3632a71c63e38},{289,0x3f47d722b3003},{289,0x4393ea1cfdc17},{289,0x4ba6bb67a8bdf},{289,0x5211081722e43},{289,0x53b98cb253ba7},{289,0x55c1c37c286f3},{289,0x579a212eab34b},{289,0x5bbd8bf744627},{289,0x5bcc5dfcfeb6f},{289,0x63df2f47a9b37},{289,0x6484b1103e9b3},{289,0x68623af56759f},{289,0x7404d1dcffac7},{289,0x7b6723926ed2f},{289,0x83a1cb0854b00},{289,0x85087075f8ecd},{289,0x88e9d00be8a7c},{289,0x97a0735495a9d},{289,0x99ade2b553320},{289,0x9a91cece6ad07},{289,0xa694ae604ce82},{289,0xa6caefd445c02},{289,0xa7d54079390bc},{289,0xae5354f4ad773},{289,0xb181d29480f0d},{289,0xc1cf2a195d825},{289,0xc4c0fec7ad897},{289,0xccc162a76e46e},{289,0xd314fbdee348b},{289,0xd79e397362019},{289,0xded818b12003a},{289,0xe131a3bff6b42},{289,0xe94d6fa5cd317},{289,0xf5dbc67a22a0b},{289,0xfef0f68071bd6},
{290,0x124dbcab1a355},{290,0x159ca364e6f1c},{290,0x2348a4f251cf7},{290,0x39b7ac969157d},{290,0x3b14d4e2f36a1},{290,0x3f47d722b3003},{290,0x4ba6bb67a8bdf},{290,0x4fb0240cfe3c3},{290,0x5211081722e43},{290,0x53b98cb253ba7},{290,0x55be4104fe799},{290,0x55c1c37c286f3},{290,0x5637dae8c9209},{290,0x56adf25569d1f},{290,0x57c2f557a938b},{290,0x5b03cc3e20ae3},{290,0x5b4adc93b0bfb},{290,0x5bbd8bf744627},{290,0x5bcc5dfcfeb6f},{290,0x5c2beaca480af},{290,0x7062fe369ea7a},{290,0x72b15c44febf0},{290,0x7404d1dcffac7},{290,0x85087075f8ecd},{290,0x99ade2b553320},{290,0x9a91cece6ad07},{290,0x9c62e852569af},{290,0xa694ae604ce82},{290,0xa6caefd445c02},{290,0xae5354f4ad773},{290,0xb55ab799bc794},{290,0xc2f8c73407bc6},{290,0xc7fbbeedf65fe},{290,0xc8e7edc737c2a},{290,0xceafbafd80e84},{290,0xd314fbdee348b},{290,0xd79e397362019},{290,0xdcd3645e75448},{290,0xdeebc2b40c804},{290,0xe131a3bff6b42},{290,0xe94d6fa5cd317},{290,0xf5dbc67a22a0b},{290,0xf5f02f92ddc50},
{291,0x10b0281a4304c},{291,0x124dbcab1a355},{291,0x159ca364e6f1c},{291,0x2348a4f251cf7},{291,0x28863072041e1},{291,0x3777b02cfd46b},{291,0x3b14d4e2f36a1},{291,0x45ece4eaed1a6},{291,0x4ba6bb67a8bdf},{291,0x4fb0240cfe3c3},{291,0x51b4d85fa8fb5},{291,0x5211081722e43},{291,0x53b98cb253ba7},{291,0x54bbe6dba91a0},{291,0x55be4104fe799},{291,0x55c1c37c286f3},{291,0x5637dae8c9209},{291,0x56adf25569d1f},{291,0x57c2f557a938b},{291,0x59c7a9aa53f7d},{291,0x5b03cc3e20ae3},{291,0x5bbd8bf744627},{291,0x5c2beaca480af},{291,0x5fd5c6a254353},{291,0x6cecd2f88ee85},{291,0x718e33039baa8},{291,0x7404d1dcffac7},{291,0x7dcd962873b36},{291,0x85087075f8ecd},{291,0x8833dd17ab23b},{291,0x99ade2b553320},{291,0x9a91cece6ad07},{291,0x9aa25c5a959af},{291,0x9c62e852569af},{291,0xa6caefd445c02},{291,0xae5354f4ad773},{291,0xc2f8c73407bc6},{291,0xc7fbbeedf65fe},{291,0xc836caa446b89},{291,0xc871d65a97114},{291,0xd314fbdee348b},{291,0xdcd3645e75448},{291,0xe94d6fa5cd317},{291,0xf0cf40240a182},{291,0xfdb0fbc1b9cbd},
{292,0x10b0281a4304c},{292,0x3777b02cfd46b},{292,0x418f35ca53025},{292,0x4ba6bb67a8bdf},{292,0x4c8e4e6634a6f},{292,0x5211081722e43},{292,0x52b73288fe5ae},{292,0x53b98cb253ba7},{292,0x545f7d36465b1},{292,0x54bbe6dba91a0},{292,0x55be4104fe799},{292,0x55fccf3278c7e},{292,0x5637dae8c9209},{292,0x56adf25569d1f},{292,0x56c09b2e53d92},{292,0x5bbd8bf744627},{292,0x5fd5c6a254353},{292,0x63fab8fc51bcf},{292,0x69219b4e8588f},{292,0x69ed4c3fa9f0d},{292,0x7dcd962873b36},{292,0x83bf50e37cdc6},{292,0x99ade2b553320},{292,0x9a91cece6ad07},{292,0x9c62e852569af},{292,0xae5354f4ad773},{292,0xb1644cb958c48},{292,0xb1c4bf4da8d9c},{292,0xc2f8c73407bc6},{292,0xc7fbbeedf65fe},{292,0xc836caa446b89},{292,0xc8d0cf34f8cac},{292,0xd194075be3502},{292,0xd314fbdee348b},{292,0xe94d6fa5cd317},{292,0xf0cf40240a182},
{293,0x2141417e860d},{293,0x502141a509c9},{293,0xcbf9fb95fbb2},{293,0x10b0281a4304c},{293,0x149f9139381ed},{293,0x32b6077af60f6},{293,0x3777b02cfd46b},{293,0x3b0074dfc03f7},{293,0x45469af0e9b74},{293,0x4ba6bb67a8bdf},{293,0x4c8e4e6634a6f},{293,0x50b27e36539bc},{293,0x5211081722e43},{293,0x53b98cb253ba7},{293,0x54bbe6dba91a0},{293,0x5586b7c5d8168},{293,0x55be4104fe799},{293,0x561a550da0f44},{293,0x5637dae8c9209},{293,0x56adf25569d1f},{293,0x5aca03d3a9576},{293,0x5bbd8bf744627},{293,0x5d9951b2d4369},{293,0x5fd5c6a254353},{293,0x601351e34ce3f},{293,0x69ed4c3fa9f0d},{293,0x739855606520f},{293,0x7dcd962873b36},{293,0x8f288fd8f3d66},{293,0x9a91cece6ad07},{293,0x9c62e852569af},{293,0xa5fb0dc3e1ca7},{293,0xae5354f4ad773},{293,0xb56703d6a0641},{293,0xc2f8c73407bc6},{293,0xc81944c91e8c3},{293,0xc836caa446b89},{293,0xced8846503451},{293,0xe94d6fa5cd317},{293,0xece7d90b053f2},{293,0xeedb8c9787aba},{293,0xf0cf40240a182},{293,0xf89e0e5613ca2},
{294,0x2141417e860d},{294,0xcbf9fb95fbb2},{294,0x10b0281a4304c},{294,0x1d29a01d763e7},{294,0x1e3ce223a6f1a},{294,0x2ee8d0079661a},{294,0x3777b02cfd46b},{294,0x3b0074dfc03f7},{294,0x45469af0e9b74},{294,0x4c8e4e6634a6f},{294,0x50b27e36539bc},{294,0x5211081722e43},{294,0x54bbe6dba91a0},{294,0x55be4104fe799},{294,0x561a550da0f44},{294,0x57d52ce4fb8d6},{294,0x5aca03d3a9576},{294,0x5bbd8bf744627},{294,0x601351e34ce3f},{294,0x6207056fcf507},{294,0x69ed4c3fa9f0d},{294,0x74a9e4ea36db5},{294,0x7dcd962873b36},{294,0x83281a490045e},{294,0x889247e6f2634},{294,0x8f288fd8f3d66},{294,0x9c62e852569af},{294,0xaa8a0061b2d62},{294,0xb1c4bf4da8d9c},{294,0xb56703d6a0641},{294,0xb654915ffdaf8},{294,0xc2f8c73407bc6},{294,0xc7c0b337a6073},{294,0xc836caa446b89},{294,0xc854507f6ee4e},{294,0xcd09f20a08336},{294,0xe04493dee5d90},{294,0xe5190ad8fb8d2},{294,0xeedb8c9787aba},{294,0xf89e0e5613ca2},{294,0xfa10348544fe1},{294,0xfed943bf284f2},{294,0xffdb9de87daeb},
{295,0xcbf9fb95fbb2},{295,0x1d4725f89e6ac},{295,0x1e3ce223a6f1a},{295,0x29031d5524b93},{295,0x2ee8d0079661a},{295,0x3777b02cfd46b},{295,0x39a1fa958b995},{295,0x45469af0e9b74},{295,0x45538f7a3ea35},{295,0x4c8e4e6634a6f},{295,0x50b27e36539bc},{295,0x54bbe6dba91a0},{295,0x55be4104fe799},{295,0x561a550da0f44},{295,0x57d52ce4fb8d6},{295,0x5bbd8bf744627},{295,0x601351e34ce3f},{295,0x610d2ba98e1a3},{295,0x618a188caeb55},{295,0x6207056fcf507},{295,0x69ed4c3fa9f0d},{295,0x7dcd962873b36},{295,0x8928467d78f55},{295,0x8eed8422a37db},{295,0x8f288fd8f3d66},{295,0x9c62e852569af},{295,0xb1c4bf4da8d9c},{295,0xc854507f6ee4e},{295,0xc97b8b0f00a05},{295,0xcd09f20a08336},{295,0xe4af251c5c137},{295,0xe5d6094b4cb6f},{295,0xe7fcc4ff24131},{295,0xeedb8c9787aba},{295,0xf6d8f8fba63c4},{295,0xfcd48f6c7d900},
{296,0x93bfca38b73},{296,0xedeaff3d77ad},{296,0x1c1feb690caf5},{296,0x1e3ce223a6f1a},{296,0x29031d5524b93},{296,0x2ee8d0079661a},{296,0x39a1fa958b995},{296,0x45469af0e9b74},{296,0x4c8e4e6634a6f},{296,0x50b27e36539bc},{296,0x55be4104fe799},{296,0x561a550da0f44},{296,0x57d52ce4fb8d6},{296,0x5bbd8bf744627},{296,0x601351e34ce3f},{296,0x618a188caeb55},{296,0x646545373fb7e},{296,0x72c1a0da9b1b3},{296,0x8f288fd8f3d66},{296,0x9c62e852569af},{296,0xaba0ea5109315},{296,0xabcf49a01373b},{296,0xb1c4bf4da8d9c},{296,0xb9ebda7aa7f4f},{296,0xcf3fafdcd9498},{296,0xd4d3199af331a},{296,0xdb56891a6f6ea},{296,0xe7fcc4ff24131},{296,0xeedb8c9787aba},{296,0xf2bd09cf27d46},{296,0xf6d8f8fba63c4},
{297,0x93bfca38b73},{297,0x1275d120194e},{297,0xf1af79089881},{297,0x1c1feb690caf5},{297,0x1e3ce223a6f1a},{297,0x2ab5bcb773fc8},{297,0x2b570a6becd5b},{297,0x39376ca2424d5},{297,0x39fa8c27041e6},{297,0x3b5f0f74b7274},{297,0x45469af0e9b74},{297,0x50b27e36539bc},{297,0x55be4104fe799},{297,0x561a550da0f44},{297,0x57d52ce4fb8d6},{297,0x5bbd8bf744627},{297,0x617e91301a10a},{297,0x618a188caeb55},{297,0x6283f252efeb9},{297,0x64f492c292f33},{297,0x69794a160cb57},{297,0x72c1a0da9b1b3},{297,0x72cdbb3c06a7d},{297,0x7f40bb0146655},{297,0x80dd9faf5512c},{297,0x938a6e60ea6b7},{297,0x94c7803b4e25d},{297,0x9c62e852569af},{297,0xa1dd287b343ac},{297,0xaba0ea5109315},{297,0xb26af7d79dfb9},{297,0xc3d79c9b8fe2d},{297,0xd4d3199af331a},{297,0xd66434f2bd4fd},{297,0xdef3e8906a707},{297,0xe0d909026d536},{297,0xe47419660bbac},{297,0xe7fcc4ff24131},{297,0xeedb8c9787aba},{297,0xef1a030917f93},{297,0xf3bccd76cdbae},{297,0xfd1c869e32517},
{298,0x93bfca38b73},{298,0xea3a43d87222},{298,0x1c1feb690caf5},{298,0x22435fbd7575e},{298,0x2ab5bcb773fc8},{298,0x3b5f0f74b7274},{298,0x45469af0e9b74},{298,0x4a3a5c529bd2a},{298,0x55fc86be6eb44},{298,0x57d52ce4fb8d6},{298,0x5bbd8bf744627},{298,0x614ba21b1e67c},{298,0x618a188caeb55},{298,0x64f492c292f33},{298,0x72c1a0da9b1b3},{298,0x72cdbb3c06a7d},{298,0x7f40bb0146655},{298,0xa8520dcae3574},{298,0xaba0ea5109315},{298,0xb26af7d79dfb9},{298,0xceb1e46ae23b9},{298,0xd6d7cded9df0c},{298,0xe47419660bbac},{298,0xe7fcc4ff24131},{298,0xe9d62ead0dc06},{298,0xeedb8c9787aba},{298,0xf3bccd76cdbae},
{299,0x1a83acdce9c5d},{299,0x1c1feb690caf5},{299,0x22435fbd7575e},{299,0x244f183245a04},{299,0x3d34b69ff34a4},{299,0x55fc86be6eb44},{299,0x57d52ce4fb8d6},{299,0x5bbd8bf744627},{299,0x5d2247474829b},{299,0x5edb01ab7b602},{299,0x614ba21b1e67c},{299,0x618a188caeb55},{299,0x64f492c292f33},{299,0x67f80141a768c},{299,0x72cdbb3c06a7d},{299,0x7a4cf5432d1d5},{299,0x8a45f5b240de7},{299,0x8f86baf6c7822},{299,0x92bb4be35b875},{299,0x93c52611f8c64},{299,0xa81397595309b},{299,0xaba0ea5109315},{299,0xb91d317c8ebe8},{299,0xbd7e96850fa5d},{299,0xc59c496ce2476},{299,0xc8162c4beeeb6},{299,0xcb96cd3135817},{299,0xcf2366ec40488},{299,0xd6d7cded9df0c},{299,0xda13dedf79d55},{299,0xe7fcc4ff24131},{299,0xe841e126c3c46},{299,0xeda33c5fb627d},{299,0xeedb8c9787aba},{299,0xfa1f8d5aca38e},
{300,0x19795e37e6613},{300,0x1a83acdce9c5d},{300,0x22435fbd7575e},{300,0x225367bbff573},{300,0x244f183245a04},{300,0x2c83be3a6b4f4},{300,0x38e52c95aa834},{300,0x39fa8c27041e6},{300,0x3a221e0530d54},{300,0x44f9970e152ef},{300,0x52e1b574abea2},{300,0x55fc86be6eb44},{300,0x57d52ce4fb8d6},{300,0x618a188caeb55},{300,0x64f492c292f33},{300,0x6539a02edd134},{300,0x67f80141a768c},{300,0x74c51466bd1b2},{300,0x807dac70ccb75},{300,0x88792f30c525f},{300,0x8a45f5b240de7},{300,0x8f86baf6c7822},{300,0x9af8bd69e8fd3},{300,0xa1f43da97eb1d},{300,0xa506848dbc75b},{300,0xa94be791248d8},{300,0xaba0ea5109315},{300,0xb54e79ffcb5b8},{300,0xb91d317c8ebe8},{300,0xc3d79c9b8fe2d},{300,0xc8162c4beeeb6},{300,0xcf2366ec40488},{300,0xd6f7d23a862d9},{300,0xeda33c5fb627d},{300,0xee4f7d243488f},{300,0xeedb8c9787aba},{300,0xfa1f8d5aca38e},{300,0xfc52902f01df3},{300,0xfcba0e318fad1},
{301,0x3cdea4327e31},{301,0x11005012f46b5},{301,0x1a66c1e139edc},{301,0x1a83acdce9c5d},{301,0x1ee43b351600b},{301,0x209d3df40158e},{301,0x22435fbd7575e},{301,0x225367bbff573},{301,0x27312a9931f4d},{301,0x2c83be3a6b4f4},{301,0x38e52c95aa834},{301,0x39fa8c27041e6},{301,0x41e0f876c7c34},{301,0x44f9970e152ef},{301,0x524c8d4ce8eaa},{301,0x52e1b574abea2},{301,0x57d52ce4fb8d6},{301,0x64493433613f3},{301,0x64f492c292f33},{301,0x67f80141a768c},{301,0x723bd22426310},{301,0x734bb3789ff13},{301,0x7e33a34dbc964},{301,0x807dac70ccb75},{301,0x8413749e4ff6d},{301,0x88792f30c525f},{301,0xa0cb3056a9f24},{301,0xa1f43da97eb1d},{301,0xa489d008e210e},{301,0xa506848dbc75b},{301,0xa94be791248d8},{301,0xb10bc74e38d0d},{301,0xb54e79ffcb5b8},{301,0xb91d317c8ebe8},{301,0xc63ac224a5706},{301,0xcf2366ec40488},{301,0xd4779aa72e1f6},{301,0xe9c133c858571},{301,0xeb66f68884c13},{301,0xeda33c5fb627d},{301,0xef49d3606af9d},{301,0xf4b4b05d9a996},{301,0xfa1f8d5aca38e},{301,0xfc52902f01df3},
{302,0x1071e260d2ca1},{302,0x11005012f46b5},{302,0x1a66c1e139edc},{302,0x1a83acdce9c5d},{302,0x1ee43b351600b},{302,0x22435fbd7575e},{302,0x225367bbff573},{302,0x2c83be3a6b4f4},{302,0x33a67f650a431},{302,0x36a43baaf2ebf},{302,0x3f1d136777383},{302,0x436e1e3b5eb4c},{302,0x57d52ce4fb8d6},{302,0x64f492c292f33},{302,0x67f80141a768c},{302,0x6d62de3ed7085},{302,0x802e7014eb22d},{302,0x807dac70ccb75},{302,0x86dd2f22420c3},{302,0x88792f30c525f},{302,0x8c81e447f01cd},{302,0xa0cb3056a9f24},{302,0xa506848dbc75b},{302,0xa94be791248d8},{302,0xacec250456b63},{302,0xb91d317c8ebe8},{302,0xbbe18148980fe},{302,0xc61323f6b4a62},{302,0xcf2366ec40488},{302,0xd4779aa72e1f6},{302,0xe015166548e10},{302,0xeda33c5fb627d},{302,0xef49d3606af9d},{302,0xf410825d0a372},{302,0xfc52902f01df3},
{303,0x1fbaec90399},{303,0x856c43e6ef56},{303,0xb860ca0d4c71},{303,0x1071e260d2ca1},{303,0x11005012f46b5},{303,0x19a9dbe779e14},{303,0x1a66c1e139edc},{303,0x1ee43b351600b},{303,0x225367bbff573},{303,0x2c83be3a6b4f4},{303,0x34959de3137ab},{303,0x36a43baaf2ebf},{303,0x3a715a611269c},{303,0x3bfd882c7a504},{303,0x3c2a0eec9e5fa},{303,0x46e7dc08b17f8},{303,0x4beebf9a9b3bc},{303,0x564caeb7201ad},{303,0x6cce113867f83},{303,0x6d62de3ed7085},{303,0x802e7014eb22d},{303,0x807dac70ccb75},{303,0x8717074ac07d4},{303,0x88792f30c525f},{303,0x997b65ecfa659},{303,0x9c277b0d6d6b9},{303,0xa0cb3056a9f24},{303,0xa506848dbc75b},{303,0xa79a22d1d6e4a},{303,0xa94be791248d8},{303,0xacec250456b63},{303,0xb91d317c8ebe8},{303,0xc4fdd0b51f1e6},{303,0xc61323f6b4a62},{303,0xd4779aa72e1f6},{303,0xd595aa548184e},{303,0xeda33c5fb627d},{303,0xf410825d0a372},{303,0xfc52902f01df3},
{304,0x11005012f46b5},{304,0x19a9dbe779e14},{304,0x1a66c1e139edc},{304,0x1ee43b351600b},{304,0x2046631b1aa96},{304,0x2afcf39084cd2},{304,0x2c83be3a6b4f4},{304,0x34959de3137ab},{304,0x38986440ff75b},{304,0x3a5d8b4a1a04a},{304,0x3a715a611269c},{304,0x3bfd882c7a504},{304,0x46e7dc08b17f8},{304,0x4beebf9a9b3bc},{304,0x52fda13feb3f0},{304,0x564caeb7201ad},{304,0x6100725988693},{304,0x69af82adf66a9},{304,0x6cce113867f83},{304,0x6e6a729959e1f},{304,0x807dac70ccb75},{304,0x88792f30c525f},{304,0x9fd607ba5d9ec},{304,0x9fffa0fbd2b97},{304,0xa0cb3056a9f24},{304,0xa506848dbc75b},{304,0xa94be791248d8},{304,0xc4fdd0b51f1e6},{304,0xc61323f6b4a62},{304,0xd4779aa72e1f6},{304,0xd595aa548184e},{304,0xf0abfb466fa28},
{305,0x47efe362a376},{305,0x11005012f46b5},{305,0x19a9dbe779e14},{305,0x1a66c1e139edc},{305,0x1ee43b351600b},{305,0x25582ddf64d04},{305,0x27b5a5d5168bf},{305,0x2afcf39084cd2},{305,0x38986440ff75b},{305,0x3a5d8b4a1a04a},{305,0x3a715a611269c},{305,0x4beebf9a9b3bc},{305,0x50b1d78dbdb97},{305,0x564caeb7201ad},{305,0x60303fbf6123a},{305,0x6cb1ca4bd4b3f},{305,0x6cce113867f83},{305,0x6e6a729959e1f},{305,0x793a14e246c33},{305,0x803857a067556},{305,0x807dac70ccb75},{305,0x9449a5ca3661f},{305,0x9fffa0fbd2b97},{305,0xa0cb3056a9f24},{305,0xa506848dbc75b},{305,0xc007f8faa609f},{305,0xc61323f6b4a62},{305,0xc626f30dad0b4},{305,0xc8630bd50ba03},{305,0xcae6fb0dfe226},{305,0xd4e496617f308},{305,0xe8e84c7452b07},{305,0xf0abfb466fa28},
{306,0x47efe362a376},{306,0x6b8b768a69ca},{306,0x18796438693bf},{306,0x1ee43b351600b},{306,0x25582ddf64d04},{306,0x2afcf39084cd2},{306,0x3a0e4eee38702},{306,0x3f8a3d7a3b923},{306,0x45a6232437107},{306,0x564caeb7201ad},{306,0x587ff88763926},{306,0x5ebff46312d8d},{306,0x67c361ccb36f0},{306,0x6cce113867f83},{306,0x72a6de779c081},{306,0x807dac70ccb75},{306,0x861122324b36d},{306,0x9449a5ca3661f},{306,0x9fffa0fbd2b97},{306,0xa506848dbc75b},{306,0xa6483d7236e4c},{306,0xa72e254df239d},{306,0xaba95f86d6493},{306,0xadc721ca089ce},{306,0xaeaee2c9222b4},{306,0xb77cb7534ef3a},{306,0xc11f5e389b5e2},{306,0xc61323f6b4a62},{306,0xcae6fb0dfe226},{306,0xd374fc5e04b94},{306,0xe2c848d3f7698},{306,0xe8e84c7452b07},{306,0xe9008a21db4e8},{306,0xe9090e1a3131b},{306,0xf0abfb466fa28},
{307,0x47efe362a376},{307,0x6b8b768a69ca},{307,0x8c055c3264ee},{307,0xb70d76f6653e},{307,0x18796438693bf},{307,0x1984d612ec25d},{307,0x2339f7f043bd3},{307,0x3f8a3d7a3b923},{307,0x3fdbfaa8fe108},{307,0x4fd66cb2de1c7},{307,0x564caeb7201ad},{307,0x5ebff46312d8d},{307,0x6100725988693},{307,0x65c702cdbd688},{307,0x72a6de779c081},{307,0x73a3a38510d07},{307,0x7a957cbe4cecf},{307,0x807dac70ccb75},{307,0x92e77de431b94},{307,0x99fc2c55c573b},{307,0x9fffa0fbd2b97},{307,0xa7bd098fe60ec},{307,0xaba95f86d6493},{307,0xadc721ca089ce},{307,0xb77cb7534ef3a},{307,0xb9408eefea838},{307,0xbaf91ac235630},{307,0xc5f56d54400e7},{307,0xca48d5fd947cd},{307,0xcb4f5c226e072},{307,0xd374fc5e04b94},{307,0xe8e84c7452b07},{307,0xf028d544c7567},{307,0xf0abfb466fa28},{307,0xfa773d376ea2b},
{308,0x47efe362a376},{308,0x6b8b768a69ca},{308,0x17526e7c7ec49},{308,0x18796438693bf},{308,0x2339f7f043bd3},{308,0x2486b18c42cec},{308,0x3b05eb8d59603},{308,0x3f8a3d7a3b923},{308,0x3fdbfaa8fe108},{308,0x4af06b33efe2a},{308,0x5ebff46312d8d},{308,0x65c702cdbd688},{308,0x73a3a38510d07},{308,0x76d18e398356b},{308,0x77eb06d7586af},{308,0x7a957cbe4cecf},{308,0x807dac70ccb75},{308,0x81e33c7867a74},{308,0x9fffa0fbd2b97},{308,0xa3398ce28662e},{308,0xb5a0bc025e47c},{308,0xbaf91ac235630},{308,0xc5f56d54400e7},{308,0xcb4f5c226e072},{308,0xd374fc5e04b94},{308,0xdbdd8155e01e1},{308,0xdf4f5c37595b4},{308,0xe8e84c7452b07},{308,0xf29d6e51aa47d},
{309,0x2e8596c0a7ea},{309,0x47efe362a376},{309,0x6b8b768a69ca},{309,0x9b46121174cc},{309,0xd2e347d75c6d},{309,0x130ffe76af7a9},{309,0x18796438693bf},{309,0x2486b18c42cec},{309,0x27383c5456c5e},{309,0x2f0fc3ae50263},{309,0x34a7e91ac3ea1},{309,0x3f8a3d7a3b923},{309,0x3fdbfaa8fe108},{309,0x4af06b33efe2a},{309,0x5dc1cbff130bc},{309,0x5ebff46312d8d},{309,0x60d8e9156dffd},{309,0x77eb06d7586af},{309,0x7a957cbe4cecf},{309,0x807dac70ccb75},{309,0x8bf553e995923},{309,0x9c59a44b772f6},{309,0x9d4ebadc797b7},{309,0x9fffa0fbd2b97},{309,0xa33087ca51fcf},{309,0xa3398ce28662e},{309,0xa4441cf348008},{309,0xa9797fde3515e},{309,0xb2a22664a327f},{309,0xbaf91ac235630},{309,0xc5f56d54400e7},{309,0xc829cca311442},{309,0xcdcf64808afeb},{309,0xd374fc5e04b94},{309,0xdf4f5c37595b4},{309,0xe8b14dc5f9ba0},{309,0xe8e84c7452b07},{309,0xecedb442a6574},
{310,0x33c53f9c02d4},{310,0xd2d4dbdb55b0},{310,0x12d3cc5aef816},{310,0x184a0b1b9fb4a},{310,0x18796438693bf},{310,0x2486b18c42cec},{310,0x27383c5456c5e},{310,0x2f0fc3ae50263},{310,0x319d3df992414},{310,0x3f8a3d7a3b923},{310,0x3fdbfaa8fe108},{310,0x4af06b33efe2a},{310,0x5ebff46312d8d},{310,0x60d8e9156dffd},{310,0x62437b986820b},{310,0x6aee0f2a73729},{310,0x71e72d36c1c95},{310,0x77eb06d7586af},{310,0x807dac70ccb75},{310,0x88eebd6572e63},{310,0x95fa7a72b425d},{310,0x9647ac71ceebc},{310,0x9fffa0fbd2b97},{310,0xa3398ce28662e},{310,0xa9b1040235b70},{310,0xacf26c7ad3242},{310,0xb9408eefea838},{310,0xbaf91ac235630},{310,0xbb27b717c90b3},{310,0xbc961e192cccc},{310,0xc5f56d54400e7},{310,0xcdcf64808afeb},{310,0xd374fc5e04b94},{310,0xda5899a84f4d6},{310,0xdc1e88328a2f3},{310,0xdf4f5c37595b4},{310,0xe0403cd1538b2},{310,0xe8b14dc5f9ba0},{310,0xf7a15d5d3e279},
{311,0x33c53f9c02d4},{311,0x4811354f086b},{311,0x8d625f9efc93},{311,0x12d3cc5aef816},{311,0x13c85955f2923},{311,0x184a0b1b9fb4a},{311,0x2114b2a2b03be},{311,0x2486b18c42cec},{311,0x27165f96d807f},{311,0x27383c5456c5e},{311,0x319d3df992414},{311,0x36dbedf2b06e9},{311,0x3b70addcb9db2},{311,0x3f8a3d7a3b923},{311,0x3fdbfaa8fe108},{311,0x4af06b33efe2a},{311,0x4f3f9eac24fad},{311,0x671bdac73c42e},{311,0x71e72d36c1c95},{311,0x77eb06d7586af},{311,0x82187d11ed331},{311,0x88eebd6572e63},{311,0x8ec81ac78b4d4},{311,0x92a4826e1f980},{311,0x9590df89813e5},{311,0x9afd0db7436fa},{311,0x9fffa0fbd2b97},{311,0xa3398ce28662e},{311,0xa89b44b70d925},{311,0xaa04c784f14d1},{311,0xacf26c7ad3242},{311,0xb9408eefea838},{311,0xbaf91ac235630},{311,0xc5f56d54400e7},{311,0xcdcf64808afeb},{311,0xd374fc5e04b94},{311,0xdf4f5c37595b4},{311,0xe0403cd1538b2},{311,0xe7fdabbee47ee},{311,0xefb1113648a18},{311,0xf679d5f83e929},{311,0xfdbce052c27f5},
{312,0x33c53f9c02d4},{312,0x118475817aecd},{312,0x12d3cc5aef816},{312,0x13c85955f2923},{312,0x2114b2a2b03be},{312,0x27165f96d807f},{312,0x27383c5456c5e},{312,0x36dbedf2b06e9},{312,0x3b70addcb9db2},{312,0x3f8a3d7a3b923},{312,0x3fdbfaa8fe108},{312,0x45d14629bf88d},{312,0x4af06b33efe2a},{312,0x502095f0f8d56},{312,0x55a527b1a8eeb},{312,0x653b4054984a9},{312,0x671bdac73c42e},{312,0x6e06e6b272cf7},{312,0x71e72d36c1c95},{312,0x7324645c7a1d5},{312,0x7412c118a4924},{312,0x78928ddccf971},{312,0x82187d11ed331},{312,0x8ec81ac78b4d4},{312,0x90f7e72e24dc0},{312,0x912e9073751aa},{312,0x9590df89813e5},{312,0x9afd0db7436fa},{312,0xaa04c784f14d1},{312,0xacf26c7ad3242},{312,0xb22c758d90e08},{312,0xc5f56d54400e7},{312,0xc8b64882312d9},{312,0xcdcf64808afeb},{312,0xd374fc5e04b94},{312,0xdf4f5c37595b4},{312,0xf679d5f83e929},{312,0xfb24e492936f6},
{313,0x33c53f9c02d4},{313,0x6aa92180d005},{313,0x12d3cc5aef816},{313,0x13c85955f2923},{313,0x17d65f9f7ecb3},{313,0x27165f96d807f},{313,0x27383c5456c5e},{313,0x41b5d15c1e5b1},{313,0x45d14629bf88d},{313,0x4af06b33efe2a},{313,0x55a527b1a8eeb},{313,0x56e86d0919788},{313,0x59a6d864b907b},{313,0x5c336663e5f04},{313,0x671bdac73c42e},{313,0x6be5291418854},{313,0x71e72d36c1c95},{313,0x7324645c7a1d5},{313,0x7904381b47788},{313,0x79ad1169bf9c2},{313,0x90f7e72e24dc0},{313,0x9afd0db7436fa},{313,0x9dac8600ebdb5},{313,0xacf26c7ad3242},{313,0xacf6a71d8993a},{313,0xadcb1d2530936},{313,0xb22c758d90e08},{313,0xc1901990b7cad},{313,0xc311a7dbbdbe2},{313,0xc5f56d54400e7},{313,0xc70a936769d7a},{313,0xdd23c85576926},{313,0xef81e8cd06d53},{313,0xf65283d413f06},{313,0xf679d5f83e929},{313,0xfb24e492936f6},{313,0xfdb17291c057f},{313,0xfe32a54567281},
{314,0xb260db2bac7a},{314,0x12d3cc5aef816},{314,0x13c85955f2923},{314,0x17d65f9f7ecb3},{314,0x1a7db3d42dd41},{314,0x26941a78320ea},{314,0x27165f96d807f},{314,0x34de1cb2047cf},{314,0x41b5d15c1e5b1},{314,0x4af06b33efe2a},{314,0x55a527b1a8eeb},{314,0x56f130f805f09},{314,0x58ba6fab6f36c},{314,0x59ce7f4970123},{314,0x671bdac73c42e},{314,0x6be5291418854},{314,0x7324645c7a1d5},{314,0x749de580f5374},{314,0x7904381b47788},{314,0x79ad1169bf9c2},{314,0x7d56a1edd1e94},{314,0x88fd7f4dacdd2},{314,0x93bb1e72a2033},{314,0x959856d46c2c8},{314,0xacf26c7ad3242},{314,0xb1ab0c7afe154},{314,0xb451d888c9e91},{314,0xc311a7dbbdbe2},{314,0xc50b1a6824db4},{314,0xc5f56d54400e7},{314,0xdd23c85576926},{314,0xeaa35baf853cd},{314,0xeb54b2ffda488},{314,0xf10c8e65fe7bc},{314,0xfb24e492936f6},
{315,0xb260db2bac7a},{315,0x12d3cc5aef816},{315,0x13c85955f2923},{315,0x17d65f9f7ecb3},{315,0x1a7db3d42dd41},{315,0x3920f43cfb854},{315,0x41b5d15c1e5b1},{315,0x4af06b33efe2a},{315,0x4ef49be00225b},{315,0x55a527b1a8eeb},{315,0x59ce7f4970123},{315,0x5a73b03a5f214},{315,0x5c70196222c48},{315,0x671bdac73c42e},{315,0x69f6f540ce5fe},{315,0x6f49f28b8dea7},{315,0x749de580f5374},{315,0x76b0fb6bad857},{315,0x78f2bd602e741},{315,0x874e4777d9d28},{315,0x8e734f2622ff8},{315,0x93bb1e72a2033},{315,0x9516c1517d008},{315,0x959856d46c2c8},{315,0xacf26c7ad3242},{315,0xba3136feb6eeb},{315,0xc025912baa2d9},{315,0xc311a7dbbdbe2},{315,0xc50b1a6824db4},{315,0xd117715ecdb6d},{315,0xda0f1b20de1cf},{315,0xe5085d1e852e9},{315,0xeb54b2ffda488},{315,0xf10c8e65fe7bc},
{316,0xb260db2bac7a},{316,0x12b6e90eb5dbe},{316,0x12d3cc5aef816},{316,0x17d65f9f7ecb3},{316,0x41b5d15c1e5b1},{316,0x59ce7f4970123},{316,0x5a73b03a5f214},{316,0x5a83b4cf2a871},{316,0x5c70196222c48},{316,0x69f6f540ce5fe},{316,0x749de580f5374},{316,0x76b0fb6bad857},{316,0x78f2bd602e741},{316,0x7df3842d6aa4e},{316,0x85360cef27c45},{316,0x860f5e5aae9b4},{316,0x8e734f2622ff8},{316,0x93bb1e72a2033},{316,0x9516c1517d008},{316,0x959856d46c2c8},{316,0xa3e26630fe868},{316,0xac1434969d5f5},{316,0xacf26c7ad3242},{316,0xaff94c4067bfe},{316,0xc025912baa2d9},{316,0xc311a7dbbdbe2},{316,0xcb1145e379490},{316,0xd117715ecdb6d},{316,0xda0f1b20de1cf},{316,0xe9301f4c1f6df},{316,0xeb54b2ffda488},{316,0xf10c8e65fe7bc},{316,0xf29820333f897},{316,0xf9e507ab3886e},
{317,0x28bd3c093691},{317,0x4bcdafc4188b},{317,0xb260db2bac7a},{317,0x12d3cc5aef816},{317,0x17d65f9f7ecb3},{317,0x1c669c20a226c},{317,0x24cad88c9fc36},{317,0x347706d83a908},{317,0x41b5d15c1e5b1},{317,0x48648e7fd69fa},{317,0x4f3bf4fb2fafc},{317,0x52b20db72781f},{317,0x58ba6fab6f36c},{317,0x5a73b03a5f214},{317,0x5fd4aac4c4800},{317,0x69f6f540ce5fe},{317,0x7041874a86de4},{317,0x749de580f5374},{317,0x78f2bd602e741},{317,0x7df3842d6aa4e},{317,0x7e194e0c5ca1b},{317,0x80293fc990a58},{317,0x8e734f2622ff8},{317,0x9205d2fd47960},{317,0x93bb1e72a2033},{317,0xa3e26630fe868},{317,0xa980ec4086488},{317,0xaee90b964b047},{317,0xb5c56ec9b6fec},{317,0xc311a7dbbdbe2},{317,0xc42c2b68adc33},{317,0xc77001829ab95},{317,0xcb1145e379490},{317,0xcda6ffa021043},{317,0xceb28a4457d8c},{317,0xda0f1b20de1cf},{317,0xeb54b2ffda488},{317,0xec9fd30f19308},{317,0xf10c8e65fe7bc},{317,0xf29820333f897},{317,0xf9e507ab3886e},
{318,0xb260db2bac7a},{318,0x1b26f08117090},{318,0x24cad88c9fc36},{318,0x30d5c2775c00c},{318,0x38b6f2fab4e38},{318,0x42424d3b3e448},{318,0x432ec8b0b8435},{318,0x48648e7fd69fa},{318,0x5a73b03a5f214},{318,0x5fd4aac4c4800},{318,0x69f6f540ce5fe},{318,0x6f6e72a9f0660},{318,0x7041874a86de4},{318,0x749de580f5374},{318,0x78f2bd602e741},{318,0x7df3842d6aa4e},{318,0x7e194e0c5ca1b},{318,0x80293fc990a58},{318,0x86638b9fcbd21},{318,0x8e734f2622ff8},{318,0x903c9111b54ac},{318,0x9205d2fd47960},{318,0x93bb1e72a2033},{318,0xa980ec4086488},{318,0xaee90b964b047},{318,0xb5c56ec9b6fec},{318,0xc311a7dbbdbe2},{318,0xc42c2b68adc33},{318,0xcb1145e379490},{318,0xcf019ac1c407b},{318,0xcf3a860e5d719},{318,0xda0f1b20de1cf},{318,0xeb54b2ffda488},{318,0xf10c8e65fe7bc},{318,0xf29820333f897},{318,0xfceb301a2d237},
{319,0x7df801393600},{319,0x1543174967b46},{319,0x1b26f08117090},{319,0x1f6020e014a12},{319,0x30d5c2775c00c},{319,0x38b6f2fab4e38},{319,0x42424d3b3e448},{319,0x432ec8b0b8435},{319,0x48648e7fd69fa},{319,0x5764a3526352d},{319,0x5a73b03a5f214},{319,0x5fd4aac4c4800},{319,0x69df3adf02c83},{319,0x69f6f540ce5fe},{319,0x731c1b3248290},{319,0x741259ba276c2},{319,0x75b4fd0e90cd8},{319,0x78f2bd602e741},{319,0x7c03de027aa1a},{319,0x7df3842d6aa4e},{319,0x7e194e0c5ca1b},{319,0x891789636c1dc},{319,0x8e734f2622ff8},{319,0x8f57f01bec252},{319,0x90f649e2c279c},{319,0x9205d2fd47960},{319,0x93bb1e72a2033},{319,0x995d649b94110},{319,0xa482650871f6f},{319,0xc853274667935},{319,0xcb1145e379490},{319,0xcf3a860e5d719},{319,0xd253cea536687},{319,0xda0f1b20de1cf},{319,0xeb54b2ffda488},{319,0xf10c8e65fe7bc},{319,0xf1a026be809b1},
{320,0x880bc7401e76},{320,0x1543174967b46},{320,0x1f6020e014a12},{320,0x23f11691fbc8c},{320,0x29b94828dcd80},{320,0x30d5c2775c00c},{320,0x432ec8b0b8435},{320,0x5f23159edc731},{320,0x655e62fbfe3cc},{320,0x72fb422c8bd5e},{320,0x74581f9d8e51b},{320,0x75b4fd0e90cd8},{320,0x78f2bd602e741},{320,0x7c03de027aa1a},{320,0x8194c88e4934a},{320,0x8327d2d7b3181},{320,0x8d8eae3059d9e},{320,0x8ee59fa107925},{320,0x8f57f01bec252},{320,0x913af49aee4df},{320,0x9205d2fd47960},{320,0x93bb1e72a2033},{320,0x979e03b7283bb},{320,0xa0e120a793674},{320,0xa482650871f6f},{320,0xae0722dc84cb4},{320,0xaee90b964b047},{320,0xb7c9d575f5a00},{320,0xb8d68f6c032c5},{320,0xcb1145e379490},{320,0xcf3a860e5d719},{320,0xda0f1b20de1cf},{320,0xde58b650fcf21},{320,0xe6ef84cf518f0},{320,0xf10c8e65fe7bc},{320,0xf1a026be809b1},
{321,0xee273a927d3},{321,0x273cb9602221},{321,0x880bc7401e76},{321,0xa2792a8ccaaf},{321,0xd51a73deee2c},{321,0x11896a5e11ce2},{321,0x12bbd4e3bc793},{321,0x212f966ab6e77},{321,0x29bd365924ce9},{321,0x30d5c2775c00c},{321,0x432ec8b0b8435},{321,0x5f23159edc731},{321,0x74581f9d8e51b},{321,0x75b4fd0e90cd8},{321,0x790bea2381a3e},{321,0x7bb21afca2e96},{321,0x8327d2d7b3181},{321,0x8934a75f8ada7},{321,0x8d8eae3059d9e},{321,0x8f57f01bec252},{321,0x8fca4096d0b7f},{321,0x913af49aee4df},{321,0x9205d2fd47960},{321,0x93bb1e72a2033},{321,0x98e4a66618d03},{321,0x9c706ad06367f},{321,0xa482650871f6f},{321,0xac3796b6f4260},{321,0xaee90b964b047},{321,0xb7c9d575f5a00},{321,0xb8d68f6c032c5},{321,0xbead42fe90ef4},{321,0xcb1145e379490},{321,0xcf3a860e5d719},{321,0xde58b650fcf21},{321,0xe29f2bb04a5b6},{321,0xe6ef84cf518f0},{321,0xf1a026be809b1},
{322,0xee273a927d3},{322,0x880bc7401e76},{322,0xa2792a8ccaaf},{322,0xd51a73deee2c},{322,0x11896a5e11ce2},{322,0x12bbd4e3bc793},{322,0x2902ac7109742},{322,0x2bd56ec7f4963},{322,0x30d5c2775c00c},{322,0x38a8b8d8c4f10},{322,0x432ec8b0b8435},{322,0x49d7601878380},{322,0x4af1d3ddb7c8a},{322,0x4c869924ea1ea},{322,0x4f0aaafb59902},{322,0x5d1ed085fbe10},{322,0x5f23159edc731},{322,0x5fc8469d4b4cb},{322,0x6631b808218ee},{322,0x681456a477f76},{322,0x74581f9d8e51b},{322,0x75b4fd0e90cd8},{322,0x790bea2381a3e},{322,0x8327d2d7b3181},{322,0x86dbf6fcf53fb},{322,0x8934a75f8ada7},{322,0x8967de949bc14},{322,0x8fca4096d0b7f},{322,0x913af49aee4df},{322,0x9205d2fd47960},{322,0x98e4a66618d03},{322,0x9c706ad06367f},{322,0xa8dd9ae90dfe4},{322,0xac3796b6f4260},{322,0xb7c9d575f5a00},{322,0xb8d68f6c032c5},{322,0xbe677d1b2a09b},{322,0xbead42fe90ef4},{322,0xcb1145e379490},{322,0xcf3a860e5d719},{322,0xd1b6f6980998d},{322,0xe1f9fab1db81c},{322,0xe29f2bb04a5b6},{322,0xf1a026be809b1},{322,0xf23d7565c6bd2},{322,0xf393d0cba9b6f},
{323,0x880bc7401e76},{323,0xa2792a8ccaaf},{323,0xd51a73deee2c},{323,0x11896a5e11ce2},{323,0x12bbd4e3bc793},{323,0x2902ac7109742},{323,0x2a48c21ff299b},{323,0x2bd56ec7f4963},{323,0x38a8d87dae8d7},{323,0x432ec8b0b8435},{323,0x457c42336884a},{323,0x48b6372b92c4c},{323,0x4af1d3ddb7c8a},{323,0x4cf8e99fceb17},{323,0x5d1ed085fbe10},{323,0x681456a477f76},{323,0x74581f9d8e51b},{323,0x75b4fd0e90cd8},{323,0x79c1b287f6a7f},{323,0x8327d2d7b3181},{323,0x86dbf6fcf53fb},{323,0x8934a75f8ada7},{323,0x913af49aee4df},{323,0x9205d2fd47960},{323,0x93fa7adce6542},{323,0x995fce5c5c2db},{323,0x9c706ad06367f},{323,0xa0e120a793674},{323,0xac3796b6f4260},{323,0xb8d68f6c032c5},{323,0xbb5dd1d1ae678},{323,0xbead42fe90ef4},{323,0xcf3a860e5d719},{323,0xe1f9fab1db81c},{323,0xf1a026be809b1},{323,0xf23d7565c6bd2},{323,0xf90c0a239409b},{323,0xfc45ff1bbe49d},
{324,0x48cb468bc208},{324,0x696030f95b6b},{324,0x880bc7401e76},{324,0xa2792a8ccaaf},{324,0xd51a73deee2c},{324,0x12bbd4e3bc793},{324,0x12de2569b9840},{324,0x207b4aa971579},{324,0x23786eeae62ea},{324,0x2a48c21ff299b},{324,0x2b903e244dae3},{324,0x38a8d87dae8d7},{324,0x38bd42a89d96b},{324,0x432ec8b0b8435},{324,0x4af1d3ddb7c8a},{324,0x50a6110d6a9b7},{324,0x585d8302cbcdb},{324,0x5d1ed085fbe10},{324,0x5d3aeee2aaa04},{324,0x78c9e90a50618},{324,0x86dbf6fcf53fb},{324,0x9205d2fd47960},{324,0x995fce5c5c2db},{324,0xa75f7ba23e3e1},{324,0xac3796b6f4260},{324,0xaeb985d5563f9},{324,0xb8d68f6c032c5},{324,0xc102a0da49173},{324,0xc8f85844d66cf},{324,0xcf3a860e5d719},{324,0xd06005275be06},{324,0xdb7b9fb730aaf},{324,0xe36f2bd9f7e5b},{324,0xe91315a09edba},{324,0xf23d7565c6bd2},
{325,0x12a7b0e1d4a4},{325,0x48cb468bc208},{325,0xa2792a8ccaaf},{325,0xb0b0f6366f75},{325,0xd51a73deee2c},{325,0x12de2569b9840},{325,0x1adbe8668d2c9},{325,0x24e265e026fd0},{325,0x2820fcce301e6},{325,0x2a48c21ff299b},{325,0x3f27337859644},{325,0x432ec8b0b8435},{325,0x458a0ef42445f},{325,0x4af1d3ddb7c8a},{325,0x53aba0d3334ba},{325,0x585d8302cbcdb},{325,0x5d1ed085fbe10},{325,0x5d3aeee2aaa04},{325,0x6cc4fc92a0fa5},{325,0x7343578d4bd12},{325,0x78c9e90a50618},{325,0x86dbf6fcf53fb},{325,0x889a0937677d0},{325,0x901de2aca8b6b},{325,0x9c4d381e96460},{325,0xa75f7ba23e3e1},{325,0xb132ec1251bb3},{325,0xb5a4afc4a4308},{325,0xb8d68f6c032c5},{325,0xc102a0da49173},{325,0xc6423e9117316},{325,0xd06005275be06},{325,0xd4fd44bc85d42},{325,0xdb7b9fb730aaf},{325,0xe36f2bd9f7e5b},{325,0xe68de33ad8a30},{325,0xe91315a09edba},{325,0xf23d7565c6bd2},{325,0xf8f919941fe93},
{326,0x1cd67c9ec6a2},{326,0x48cb468bc208},{326,0x7cbe1e6118bf},{326,0xa2792a8ccaaf},{326,0x12de2569b9840},{326,0x24e265e026fd0},{326,0x4af1d3ddb7c8a},{326,0x53aba0d3334ba},{326,0x58925c8e73ecb},{326,0x5d1ed085fbe10},{326,0x5dad3f5d8f331},{326,0x617b2b814989a},{326,0x6cc4fc92a0fa5},{326,0x7343578d4bd12},{326,0x78c9e90a50618},{326,0x86dbf6fcf53fb},{326,0x889a0937677d0},{326,0x8a624a8140dbc},{326,0x8b7cecd4cefb3},{326,0x8b8feda2f6dd1},{326,0xa1d659e06a420},{326,0xa75f7ba23e3e1},{326,0xb0ee7f55779e9},{326,0xb525916b7692b},{326,0xb5a4afc4a4308},{326,0xb8d68f6c032c5},{326,0xd4fd44bc85d42},{326,0xdb7b9fb730aaf},{326,0xe68de33ad8a30},{326,0xe91315a09edba},{326,0xef8d1e3c66059},{326,0xf10fd24410bbd},{326,0xf23d7565c6bd2},
{327,0x98ac5d7659a},{327,0xb1d36707b02},{327,0x1cd67c9ec6a2},{327,0x48cb468bc208},{327,0x7cbe1e6118bf},{327,0xa2792a8ccaaf},{327,0x147bb420abd74},{327,0x23798aaf35781},{327,0x33ea69032def0},{327,0x349f68d94aa0d},{327,0x38a8d87dae8d7},{327,0x4af1d3ddb7c8a},{327,0x50a6110d6a9b7},{327,0x5795aec427e50},{327,0x617b2b814989a},{327,0x675f5b29d7903},{327,0x69c5ee8a8fa2d},{327,0x6cc4fc92a0fa5},{327,0x784366184a4e3},{327,0x78c9e90a50618},{327,0x86dbf6fcf53fb},{327,0x889a0937677d0},{327,0x892c71e8e21d7},{327,0x8b8feda2f6dd1},{327,0x9e00c43435e93},{327,0xa0e120a793674},{327,0xa3fe977d12208},{327,0xa4cf9550c5425},{327,0xa75f7ba23e3e1},{327,0xb525916b7692b},{327,0xb8d68f6c032c5},{327,0xc0d0083162cc7},{327,0xd4fd44bc85d42},{327,0xdb7b9fb730aaf},{327,0xdc0b180fe8c52},{327,0xe91315a09edba},{327,0xed071dabe4a28},{327,0xeeb96466a8324},{327,0xef8d1e3c66059},{327,0xf7138f4588731},{327,0xf8f919941fe93},
{328,0x98ac5d7659a},{328,0xb1d36707b02},{328,0x48cb468bc208},{328,0xa2792a8ccaaf},{328,0x3eab4eb986410},{328,0x416d8f5733433},{328,0x4af1d3ddb7c8a},{328,0x5795aec427e50},{328,0x5ad4dc417d506},{328,0x6cc4fc92a0fa5},{328,0x74d5e0ff0a9aa},{328,0x784366184a4e3},{328,0x78c9e90a50618},{328,0x7977a4666736a},{328,0x7f7a953333118},{328,0x86dbf6fcf53fb},{328,0x877015b7f0772},{328,0x88043472ebae9},{328,0x889a0937677d0},{328,0x8b8feda2f6dd1},{328,0x8ef100566fbd5},{328,0x926e5d9895947},{328,0x92d79d8eadae5},{328,0xa75f7ba23e3e1},{328,0xb525916b7692b},{328,0xc30d246b622a3},{328,0xcee457727295c},{328,0xd4fd44bc85d42},{328,0xd5aae3ca076fd},{328,0xdc0b180fe8c52},{328,0xe0252c293716b},{328,0xe516593def0b9},{328,0xe89a7f36a3e94},{328,0xe91315a09edba},{328,0xf7138f4588731},{328,0xf729488054972},{328,0xf8f919941fe93},{328,0xff6dba2468b3e},
{329,0x98ac5d7659a},{329,0xb1d36707b02},{329,0x1b043131debc},{329,0x48cb468bc208},{329,0xa2792a8ccaaf},{329,0x219c01912130c},{329,0x26ab82d12b898},{329,0x2995298229184},{329,0x2fb0c8551cb87},{329,0x38db5181ab3bc},{329,0x3d14bbe6b7736},{329,0x3eab4eb986410},{329,0x44995aca6eeb5},{329,0x4af1d3ddb7c8a},{329,0x5795aec427e50},{329,0x63bb8333fc279},{329,0x63ccec6a0f256},{329,0x6cc4fc92a0fa5},{329,0x6fe93b396a0d6},{329,0x784366184a4e3},{329,0x7b49906154eaf},{329,0x7f7a953333118},{329,0x86dbf6fcf53fb},{329,0x877015b7f0772},{329,0x889a0937677d0},{329,0x8b8feda2f6dd1},{329,0x8ca52a4ac56a1},{329,0x92d79d8eadae5},{329,0xb525916b7692b},{329,0xb7ab7aaee960a},{329,0xbbf499b017c9d},{329,0xc30d246b622a3},{329,0xd2f330b7a8ec0},{329,0xd4fd44bc85d42},{329,0xd56000e43d0ac},{329,0xd5aae3ca076fd},{329,0xe0252c293716b},{329,0xf7138f4588731},{329,0xf729488054972},{329,0xff6dba2468b3e},
{330,0x98ac5d7659a},{330,0xb1d36707b02},{330,0x48cb468bc208},{330,0x4dcb406211b8},{330,0x13145afceea8a},{330,0x219c01912130c},{330,0x26ab82d12b898},{330,0x2fb0c8551cb87},{330,0x31167f74289ce},{330,0x38a8d87dae8d7},{330,0x38db5181ab3bc},{330,0x3b9baffc93f1c},{330,0x3d14bbe6b7736},{330,0x44995aca6eeb5},{330,0x462664df08c95},{330,0x5b2b4195d5f05},{330,0x6cc4fc92a0fa5},{330,0x6fe93b396a0d6},{330,0x784366184a4e3},{330,0x795ef6603f715},{330,0x7b49906154eaf},{330,0x815b4d708a275},{330,0x86dbf6fcf53fb},{330,0x877015b7f0772},{330,0x89c090a3dd54e},{330,0x983790e665bed},{330,0xa0e120a793674},{330,0xa3c243a987537},{330,0xa4cf9550c5425},{330,0xad7b1a7531de4},{330,0xb7ab7aaee960a},{330,0xc1f3b7e95f351},{330,0xd2f330b7a8ec0},{330,0xd4fd44bc85d42},{330,0xd5aae3ca076fd},{330,0xf729488054972},{330,0xff6dba2468b3e},
{331,0x98ac5d7659a},{331,0xb1d36707b02},{331,0x48cb468bc208},{331,0x4dcb406211b8},{331,0x604f17c178a6},{331,0x701bd527b497},{331,0xbd087b2d5649},{331,0x13145afceea8a},{331,0x2fb0c8551cb87},{331,0x31167f74289ce},{331,0x320310ea5e8f9},{331,0x462664df08c95},{331,0x4c2d7606a3643},{331,0x5487df5aae14e},{331,0x5b2b4195d5f05},{331,0x7603bf5757214},{331,0x784366184a4e3},{331,0x7b49906154eaf},{331,0x86dbf6fcf53fb},{331,0x877015b7f0772},{331,0x89c090a3dd54e},{331,0x8de8a454881c9},{331,0x91e52e276faae},{331,0x93ca5af429b70},{331,0xa3c243a987537},{331,0xa4830a4ca0094},{331,0xa4cf9550c5425},{331,0xad7b1a7531de4},{331,0xb7ab7aaee960a},{331,0xc8b9c690d824f},{331,0xd10c72094b25e},{331,0xd252317ac33ab},{331,0xd2f330b7a8ec0},{331,0xd426efb6a8403},{331,0xd5aae3ca076fd},{331,0xd89f2e6192763},{331,0xd96987faddeaa},{331,0xfe3bb1d85593a},
{332,0x2319af5598af},{332,0x48cb468bc208},{332,0x4dcb406211b8},{332,0x701bd527b497},{332,0x8e98b22ff9f9},{332,0xbd087b2d5649},{332,0x206bbb45bba80},{332,0x221f8f250b9cf},{332,0x421c53d7e566b},{332,0x462664df08c95},{332,0x4c2d7606a3643},{332,0x5487df5aae14e},{332,0x784366184a4e3},{332,0x7b49906154eaf},{332,0x86dbf6fcf53fb},{332,0x871096f8014ca},{332,0x877015b7f0772},{332,0x88a4036fa081d},{332,0x89c090a3dd54e},{332,0x97a918a63f184},{332,0xa3c243a987537},{332,0xa5baead1898bd},{332,0xad7b1a7531de4},{332,0xb7ab7aaee960a},{332,0xbcc0278492eeb},{332,0xbfe6a5f7fa8c7},{332,0xc39c91adfefca},{332,0xc8b9c690d824f},{332,0xce673d0b88ff7},{332,0xd2f330b7a8ec0},{332,0xef3de64923078},{332,0xfe051c314844a},
{333,0x48cb468bc208},{333,0x53e3ed57a709},{333,0x701bd527b497},{333,0x82e9e0dc8c29},{333,0x8e98b22ff9f9},{333,0x206bbb45bba80},{333,0x221f8f250b9cf},{333,0x272f887dfe779},{333,0x462664df08c95},{333,0x493eed4273024},{333,0x4c2d7606a3643},{333,0x5487df5aae14e},{333,0x77f7dcd8155bd},{333,0x7b49906154eaf},{333,0x871096f8014ca},{333,0x88a4036fa081d},{333,0x89c090a3dd54e},{333,0x8a829bfbb8ee3},{333,0x8c45ed14ad23d},{333,0x8d3f9baf6b93f},{333,0x97a918a63f184},{333,0xa7cadec6e6b25},{333,0xb7ab7aaee960a},{333,0xc8b9c690d824f},{333,0xe4bdbcfd8be8e},{333,0xe87c267478985},{333,0xeda9959faa365},{333,0xf98c0384c7197},{333,0xfe051c314844a},
{334,0x48cb468bc208},{334,0x701bd527b497},{334,0x8e98b22ff9f9},{334,0xc6cf0893f2ae},{334,0x221f8f250b9cf},{334,0x272f887dfe779},{334,0x27e1f4fccab2a},{334,0x2c7c3a3879a7c},{334,0x42198dc22a454},{334,0x462664df08c95},{334,0x486950beb4a23},{334,0x48c22ca71a1bd},{334,0x493eed4273024},{334,0x4c2d7606a3643},{334,0x5487df5aae14e},{334,0x6212a96f5c600},{334,0x63ed3cfb4a946},{334,0x65ed0f3303cd1},{334,0x7b49906154eaf},{334,0x88a4036fa081d},{334,0x8a829bfbb8ee3},{334,0x8d3f9baf6b93f},{334,0x97a918a63f184},{334,0x998f8dbc53c2f},{334,0x9ca2ce2c1cfee},{334,0x9fd93431e7f16},{334,0xb84252abdf6ba},{334,0xc8b9c690d824f},{334,0xc8deb6208c617},{334,0xcf8caa7af94b1},{334,0xd0bef2410f6bd},{334,0xe87c267478985},{334,0xf979288528581},{334,0xf98c0384c7197},{334,0xfede8f7eeaa7d},
{335,0x701bd527b497},{335,0x8e98b22ff9f9},{335,0xc6cf0893f2ae},{335,0x106f735ab3785},{335,0x221f8f250b9cf},{335,0x27e1f4fccab2a},{335,0x2dbd4665114f1},{335,0x307a67f1f69fe},{335,0x42198dc22a454},{335,0x44c76719a8002},{335,0x48c22ca71a1bd},{335,0x493eed4273024},{335,0x4c0b3a63c1443},{335,0x51fcad1deabf9},{335,0x5487df5aae14e},{335,0x5fc586d184e57},{335,0x6212a96f5c600},{335,0x63ed3cfb4a946},{335,0x65ed0f3303cd1},{335,0x6886aa172a920},{335,0x69a2645169850},{335,0x75ddccd8aa693},{335,0x789556c36589e},{335,0x88a4036fa081d},{335,0x8dcc5bd519fa8},{335,0x97a918a63f184},{335,0xa8c15cc81671a},{335,0xb84252abdf6ba},{335,0xc60f15972b1de},{335,0xcf8caa7af94b1},{335,0xe87c267478985},{335,0xf979288528581},{335,0xf98c0384c7197},{335,0xfede8f7eeaa7d},
{336,0x1580bcc3fe99},{336,0x701bd527b497},{336,0x8e98b22ff9f9},{336,0xc6cf0893f2ae},{336,0xd2fffb823e9e},{336,0x106f735ab3785},{336,0x1e73ac3d9ae56},{336,0x27b819f142efe},{336,0x27e1f4fccab2a},{336,0x2dbd4665114f1},{336,0x307a67f1f69fe},{336,0x3a880e6b6a8f4},{336,0x400c1d408aeac},{336,0x42198dc22a454},{336,0x428123a6525a6},{336,0x44c76719a8002},{336,0x493eed4273024},{336,0x4c0b3a63c1443},{336,0x4eac2e2f02c1b},{336,0x5487df5aae14e},{336,0x5fc586d184e57},{336,0x6212a96f5c600},{336,0x63ed3cfb4a946},{336,0x6886aa172a920},{336,0x705e5ad63f988},{336,0x789556c36589e},{336,0x87a7016ccf101},{336,0x88a4036fa081d},{336,0x8e190efd0df72},{336,0x97a918a63f184},{336,0x99beec936a12d},{336,0xa3a204b9dda37},{336,0xb84252abdf6ba},{336,0xb92afa76ad4fc},{336,0xc60f15972b1de},{336,0xcf8caa7af94b1},{336,0xea57e2166aa73},{336,0xec9df91e0ef34},{336,0xf979288528581},
{337,0x1580bcc3fe99},{337,0xad6d91816f47},{337,0xd2fffb823e9e},{337,0x1e73ac3d9ae56},{337,0x27e1f4fccab2a},{337,0x3a880e6b6a8f4},{337,0x400c1d408aeac},{337,0x486950beb4a23},{337,0x48c22ca71a1bd},{337,0x493eed4273024},{337,0x4c0b3a63c1443},{337,0x4d7e2dc69ef23},{337,0x6212a96f5c600},{337,0x63ed3cfb4a946},{337,0x73b8110a9534f},{337,0x789556c36589e},{337,0x7d2df03704d87},{337,0x87a7016ccf101},{337,0x8e190efd0df72},{337,0x97a918a63f184},{337,0x98b2b01bdb79b},{337,0x99beec936a12d},{337,0x9af2b7d0e0a2c},{337,0xa32ac5bb747d1},{337,0xa3a204b9dda37},{337,0xace813a9bfdaa},{337,0xb84252abdf6ba},{337,0xb92afa76ad4fc},{337,0xc40afd65c3e64},{337,0xc60f15972b1de},{337,0xcf8caa7af94b1},{337,0xd2b70149302e6},{337,0xd6d27f3fc3271},{337,0xe2c5adf56b265},{337,0xe8fc0f7902514},{337,0xec9df91e0ef34},{337,0xf356b520b9fed},{337,0xf7bd7de423554},{337,0xfb259fb2417b6},
{338,0x1580bcc3fe99},{338,0x7f75b3827a8d},{338,0xd2fffb823e9e},{338,0x163fd9665a460},{338,0x1e73ac3d9ae56},{338,0x27e1f4fccab2a},{338,0x2d43e9f5646ee},{338,0x388e9e59b73f2},{338,0x3a880e6b6a8f4},{338,0x430bbdad023c0},{338,0x43fded97da32c},{338,0x486950beb4a23},{338,0x48c22ca71a1bd},{338,0x493eed4273024},{338,0x4b8481808037a},{338,0x4c0b3a63c1443},{338,0x4d7e2dc69ef23},{338,0x54ad0da1a3b1f},{338,0x6212a96f5c600},{338,0x73b8110a9534f},{338,0x789556c36589e},{338,0x7d2df03704d87},{338,0x87a7016ccf101},{338,0x916edcd1c235a},{338,0x98b2b01bdb79b},{338,0x99beec936a12d},{338,0xa3a204b9dda37},{338,0xace813a9bfdaa},{338,0xb65df2d62f7e2},{338,0xb84252abdf6ba},{338,0xb92afa76ad4fc},{338,0xc2a8549cf5368},{338,0xc40afd65c3e64},{338,0xc60f15972b1de},{338,0xcf8caa7af94b1},{338,0xde8b99f930e88},{338,0xe73d2ca94d7dc},{338,0xf7bd7de423554},
{339,0x1580bcc3fe99},{339,0x7eb419c283c4},{339,0xd2fffb823e9e},{339,0x173d3f34f8e56},{339,0x1e73ac3d9ae56},{339,0x34fc16df0d8e8},{339,0x3a880e6b6a8f4},{339,0x48c22ca71a1bd},{339,0x4a7f2e371713f},{339,0x4b8481808037a},{339,0x4c0b3a63c1443},{339,0x54ad0da1a3b1f},{339,0x5855d56f03c78},{339,0x5b932e2cbb2f9},{339,0x620cec21f2e0c},{339,0x73b8110a9534f},{339,0x7d2df03704d87},{339,0x7da7082c70d3d},{339,0x877d5e8c8e1d5},{339,0x87a7016ccf101},{339,0x8c909f765de4c},{339,0x8f4bdb9cdde9a},{339,0x98b2b01bdb79b},{339,0x99beec936a12d},{339,0xace813a9bfdaa},{339,0xb5c1fd444089f},{339,0xb84252abdf6ba},{339,0xb92afa76ad4fc},{339,0xc2a8549cf5368},{339,0xc40afd65c3e64},{339,0xc60f15972b1de},{339,0xc64a3e4201d88},{339,0xcfbfbfaa9674b},{339,0xd252c8c6f197f},{339,0xd40c973db2679},{339,0xdaa523aada7e9},{339,0xe73d2ca94d7dc},{339,0xf2dd9d2b4e037},{339,0xffc7d68c1580a},
{340,0x258580fbf149},{340,0x833e732dda68},{340,0x870732d93a43},{340,0x172fd8f381a15},{340,0x173d3f34f8e56},{340,0x1df03e8c4fca5},{340,0x1e73ac3d9ae56},{340,0x22df4f08ed948},{340,0x30a567aa6e1b1},{340,0x314042f1f076f},{340,0x319d89aba172c},{340,0x343609dca87a1},{340,0x3e7c1b41e14af},{340,0x48bdaff0a7800},{340,0x4a7f2e371713f},{340,0x4c0b3a63c1443},{340,0x5a394a39944bb},{340,0x5b932e2cbb2f9},{340,0x6ebd0b9ac1bcf},{340,0x7d2df03704d87},{340,0x80e69bd400e71},{340,0x87a7016ccf101},{340,0x8f1dc164d8330},{340,0x8f4bdb9cdde9a},{340,0x99beec936a12d},{340,0x9af2b7d0e0a2c},{340,0xabdc8d89e2071},{340,0xace813a9bfdaa},{340,0xb5c1fd444089f},{340,0xb84252abdf6ba},{340,0xb8bb6aa14b670},{340,0xc40afd65c3e64},{340,0xcc3d4353f87d3},{340,0xcfbfbfaa9674b},{340,0xd252c8c6f197f},{340,0xe8fc0f7902514},{340,0xf15dc44d4e55d},{340,0xffc7d68c1580a},
{341,0x172fd8f381a15},{341,0x1a035d80f1324},{341,0x1e73ac3d9ae56},{341,0x22df4f08ed948},{341,0x319d89aba172c},{341,0x343609dca87a1},{341,0x3e7c1b41e14af},{341,0x42cf31b24c3e5},{341,0x4a7f2e371713f},{341,0x4c0b3a63c1443},{341,0x56101cc79fd86},{341,0x56c8b6d1398c3},{341,0x59159552e5bf1},{341,0x5c5852b6abd82},{341,0x603b1cef5e891},{341,0x6678eb1be115a},{341,0x721f0d6540936},{341,0x7bf3e3f6d1a5a},{341,0x7f8b680220c15},{341,0x8f1dc164d8330},{341,0xace813a9bfdaa},{341,0xb84252abdf6ba},{341,0xb8bb6aa14b670},{341,0xb91365e5f1efd},{341,0xbee7f4b3277dd},{341,0xce510ecafcb72},{341,0xd252c8c6f197f},{341,0xdebde5521d3e9},{341,0xe9958cfa8213e},{341,0xf1eb6d40760cb},{341,0xf31a292604012},{341,0xf632e7d51239f},{341,0xfdbec43801991},
{342,0x24926f3cb920},{342,0x741b74805afc},{342,0x19a934e219421},{342,0x1e73ac3d9ae56},{342,0x22df4f08ed948},{342,0x259fd26feff14},{342,0x319d89aba172c},{342,0x343609dca87a1},{342,0x36a6adfe4c5ee},{342,0x3a9e31876a38d},{342,0x42cf31b24c3e5},{342,0x465b6562f61ba},{342,0x4a7f2e371713f},{342,0x4c0b3a63c1443},{342,0x56c8b6d1398c3},{342,0x5c5852b6abd82},{342,0x708b1eb0ee299},{342,0x72f33c1b08dfa},{342,0x937feb344aa4f},{342,0x93e838c059d66},{342,0xace813a9bfdaa},{342,0xb4a1e34deeacf},{342,0xb84252abdf6ba},{342,0xb8bb6aa14b670},{342,0xbc8262dd0eb2f},{342,0xbe36ee58eebea},{342,0xd107baaf7a208},{342,0xd252c8c6f197f},{342,0xd3b5d7ecedbe6},{342,0xe9958cfa8213e},{342,0xf1eb6d40760cb},{342,0xf31a292604012},{342,0xf46d34a2e6e93},{342,0xfdbec43801991},
{343,0xd7b2e28c65b},{343,0x19a934e219421},{343,0x22df4f08ed948},{343,0x2e9a13b7f1c9c},{343,0x319d89aba172c},{343,0x36a6adfe4c5ee},{343,0x385def446f9bc},{343,0x3ed46207b15b8},{343,0x42cf31b24c3e5},{343,0x465b6562f61ba},{343,0x56c8b6d1398c3},{343,0x58e0222019f66},{343,0x5ffe90f4a88b6},{343,0x708b1eb0ee299},{343,0x79a1bc865afb2},{343,0x81438c53d2989},{343,0x937feb344aa4f},{343,0x93e838c059d66},{343,0xa44d199b2450e},{343,0xa98c5d0d56464},{343,0xb8bb6aa14b670},{343,0xbc8262dd0eb2f},{343,0xbe36ee58eebea},{343,0xbf9d4d7b23fe5},{343,0xc29e116247db3},{343,0xc3d0e2536a37d},{343,0xd107baaf7a208},{343,0xd4b7ac1ef9150},{343,0xde3e930b8a094},{343,0xe39d5142462d4},{343,0xe9958cfa8213e},{343,0xf46d34a2e6e93},
{344,0xd8ec639913d},{344,0x130d620fa6048},{344,0x20f2a93eddf27},{344,0x22df4f08ed948},{344,0x292f09da373bc},{344,0x2e9a13b7f1c9c},{344,0x2eee2a904360c},{344,0x319d89aba172c},{344,0x36a6adfe4c5ee},{344,0x3ed46207b15b8},{344,0x465b6562f61ba},{344,0x4a5b20fd8db9f},{344,0x56c8b6d1398c3},{344,0x58e0222019f66},{344,0x5ffe90f4a88b6},{344,0x612895f7810be},{344,0x679617bea31bc},{344,0x708b1eb0ee299},{344,0x8152a22d8dc9a},{344,0x8c17d05939eed},{344,0x8c5cfdcaf9f93},{344,0xa15e82b024255},{344,0xb0233bb1a5d19},{344,0xb27c29a9ea896},{344,0xbbc2c5015001d},{344,0xbc8262dd0eb2f},{344,0xbe36ee58eebea},{344,0xca786d149cb99},{344,0xce7f94962cd12},{344,0xd107baaf7a208},{344,0xe1946f68c73ec},{344,0xe207802b9b54b},{344,0xef4e65c106b8f},{344,0xf059286a48eb0},
{345,0xd8ec639913d},{345,0x20d3bae3cbe72},{345,0x20f2a93eddf27},{345,0x21d40f0af2a91},{345,0x22df4f08ed948},{345,0x285505bf9ec89},{345,0x292f09da373bc},{345,0x2e9a13b7f1c9c},{345,0x36a6adfe4c5ee},{345,0x410795fd28991},{345,0x42db70b0be768},{345,0x465b6562f61ba},{345,0x48eb3f82c4aa2},{345,0x4a5b20fd8db9f},{345,0x532cfb2bcf538},{345,0x56c8b6d1398c3},{345,0x5ffe90f4a88b6},{345,0x612895f7810be},{345,0x66e4f1756df83},{345,0x708b1eb0ee299},{345,0x8152a22d8dc9a},{345,0x836ec1ed4e367},{345,0x88913a65fcb10},{345,0x8c17d05939eed},{345,0x8c5cfdcaf9f93},{345,0x982afddf17a90},{345,0x9bc052e5ad9b1},{345,0xa15e82b024255},{345,0xa92d2e6e83f51},{345,0xbac3b5aff2fcd},{345,0xbbc2c5015001d},{345,0xbc8262dd0eb2f},{345,0xbe36ee58eebea},{345,0xc68b3f3b724a6},{345,0xcfb00b21cb178},{345,0xd107baaf7a208},{345,0xe1946f68c73ec},{345,0xeb82a25c0970c},{345,0xef4e65c106b8f},{345,0xf059286a48eb0},{345,0xf8e246f0704bf},
{346,0xd8ec639913d},{346,0x1147800dcd3d7},{346,0x11567db745de7},{346,0x19f08e79b8f5d},{346,0x1a550ca8f0c69},{346,0x20f2a93eddf27},{346,0x2e9a13b7f1c9c},{346,0x465b6562f61ba},{346,0x469af51749868},{346,0x4a48933c208ad},{346,0x4a5b20fd8db9f},{346,0x56c8b6d1398c3},{346,0x5995c6103bef7},{346,0x5ffe90f4a88b6},{346,0x612895f7810be},{346,0x66e4f1756df83},{346,0x6c3c20b8a24d1},{346,0x708b1eb0ee299},{346,0x7f4f1ad9073c2},{346,0x8152a22d8dc9a},{346,0x836ec1ed4e367},{346,0x8673524f34330},{346,0x88913a65fcb10},{346,0x8c17d05939eed},{346,0x982afddf17a90},{346,0xa15e82b024255},{346,0xbbc2c5015001d},{346,0xbc8262dd0eb2f},{346,0xce659aedc728c},{346,0xe1946f68c73ec},{346,0xe4f500cff5364},{346,0xeb09650e0d0f6},{346,0xef4e65c106b8f},{346,0xf059286a48eb0},{346,0xf59603cccf2f7},{346,0xf75be5cea7f68},{346,0xf8366f2998c77},{346,0xf8e246f0704bf},{346,0xfe3f1238bae7d},
{347,0xd8ec639913d},{347,0x667c68875b0d},{347,0x11567db745de7},{347,0x1a550ca8f0c69},{347,0x1db0438b265d1},{347,0x20f2a93eddf27},{347,0x2ae71be73645c},{347,0x2dd15085ad7bb},{347,0x2e4252c96bdc4},{347,0x3188c4e3b2d71},{347,0x422f98e9e6f20},{347,0x465b6562f61ba},{347,0x4a48933c208ad},{347,0x4a5b20fd8db9f},{347,0x5ffe90f4a88b6},{347,0x612895f7810be},{347,0x66675bd915275},{347,0x66e4f1756df83},{347,0x708b1eb0ee299},{347,0x805271bc264bb},{347,0x8152a22d8dc9a},{347,0x8286247609c3d},{347,0x836ec1ed4e367},{347,0x8e897a899db26},{347,0x91510781fb5ef},{347,0x92fafcc34ce02},{347,0x982afddf17a90},{347,0x990ecbb9a97ba},{347,0x9ff892652e74b},{347,0xa15e82b024255},{347,0xce659aedc728c},{347,0xcfa8f7e187dfa},{347,0xd21f067eaa6be},{347,0xded0d46d59ee5},{347,0xe1946f68c73ec},{347,0xe4f500cff5364},{347,0xef4e65c106b8f},{347,0xf40a56aaa9561},{347,0xf75be5cea7f68},{347,0xf94e4d49fd2e8},
{348,0x667c68875b0d},{348,0xa12a6837d716},{348,0x18ebeba7c98f4},{348,0x1a550ca8f0c69},{348,0x20f2a93eddf27},{348,0x4a48933c208ad},{348,0x4a5b20fd8db9f},{348,0x5109f1ca50805},{348,0x561cdf0a6207b},{348,0x58a009397dd91},{348,0x612895f7810be},{348,0x66675bd915275},{348,0x66e4f1756df83},{348,0x692f538e956f1},{348,0x708b1eb0ee299},{348,0x7529d9b15e175},{348,0x8152a22d8dc9a},{348,0x836ec1ed4e367},{348,0x8a7e7ff4c3a44},{348,0x92fafcc34ce02},{348,0x93924cdcee142},{348,0x982afddf17a90},{348,0x990ecbb9a97ba},{348,0xa15e82b024255},{348,0xa77f92fd6929d},{348,0xb3e9fae04fc45},{348,0xb7d06bbe96825},{348,0xb9bf3dacc9745},{348,0xc52b7148fa6b5},{348,0xce659aedc728c},{348,0xd21f067eaa6be},{348,0xd887d1631707d},{348,0xded0d46d59ee5},{348,0xe1946f68c73ec},{348,0xe4f500cff5364},{348,0xea84638abbc54},{348,0xef4e65c106b8f},{348,0xf22bd92c051ef},{348,0xfd3948262a112},
{349,0x4db11ae16975},{349,0x1a550ca8f0c69},{349,0x20f2a93eddf27},{349,0x273bd16b13dcc},{349,0x367a5ef199341},{349,0x4a48933c208ad},{349,0x517d951b85c98},{349,0x561cdf0a6207b},{349,0x56f3acc2ef6d5},{349,0x58a009397dd91},{349,0x5fc27d5775e8a},{349,0x60ca883d9f54f},{349,0x612895f7810be},{349,0x66675bd915275},{349,0x66e4f1756df83},{349,0x6bb7c09bf7e8b},{349,0x6e0765936607c},{349,0x708b1eb0ee299},{349,0x7529d9b15e175},{349,0x7d402d8848670},{349,0x990ecbb9a97ba},{349,0x9f77969e16179},{349,0xa77f92fd6929d},{349,0xac886550b98b9},{349,0xb3e9fae04fc45},{349,0xb596e91c29f3c},{349,0xc52b7148fa6b5},{349,0xce659aedc728c},{349,0xcf5a1f3e5f554},{349,0xd887d1631707d},{349,0xdf5f61ac0809e},{349,0xe1946f68c73ec},{349,0xe41e331767d0a},{349,0xe4f500cff5364},{349,0xf22bd92c051ef},{349,0xf893c7d936138},{349,0xfd3948262a112},
{350,0x1db0438b265d1},{350,0x21c82e7064027},{350,0x2cfcc5a17c873},{350,0x2f192081f941e},{350,0x4081fd78cc26c},{350,0x4a48933c208ad},{350,0x5fb367a515c2e},{350,0x5fc27d5775e8a},{350,0x60ca883d9f54f},{350,0x66675bd915275},{350,0x66e4f1756df83},{350,0x68aad37746bf4},{350,0x6e0765936607c},{350,0x708b1eb0ee299},{350,0x91510781fb5ef},{350,0x92bb7f2460ae8},{350,0x990ecbb9a97ba},{350,0xa752da6ae9b7b},{350,0xac886550b98b9},{350,0xaf6a4e7887d2e},{350,0xce659aedc728c},{350,0xcf5a1f3e5f554},{350,0xdf5f61ac0809e},{350,0xe1946f68c73ec},{350,0xec61911a51aa7},{350,0xf18c15b1f8ec6},{350,0xf22bd92c051ef},{350,0xf5a549627a36b},
{351,0x5fc5fac2efe0},{351,0x796638b95037},{351,0xe53dab390f31},{351,0x1c97e964d12f2},{351,0x2355608ccd1ec},{351,0x2f192081f941e},{351,0x3483175f1fa43},{351,0x3f145d8e053a1},{351,0x4081fd78cc26c},{351,0x429affc62da4d},{351,0x43f46aa3dda79},{351,0x4929a690a9160},{351,0x4a48933c208ad},{351,0x5ad35a8f3d556},{351,0x5fb367a515c2e},{351,0x5fc27d5775e8a},{351,0x66675bd915275},{351,0x66e4f1756df83},{351,0x6d6f0e00524e7},{351,0x708b1eb0ee299},{351,0x74b90417c2bda},{351,0x7b7264a64dde3},{351,0x7f399fe02c4b9},{351,0xa752da6ae9b7b},{351,0xb4eef0d065d71},{351,0xbbd83ffa2af26},{351,0xbdf142478c707},{351,0xc87f5ef0a788d},{351,0xcf5a1f3e5f554},{351,0xd025c5fd50b76},{351,0xda5385eefd7bc},{351,0xe1946f68c73ec},{351,0xec61911a51aa7},{351,0xf18c15b1f8ec6},{351,0xf50feec5977ff},{351,0xf524dd8908f08},{351,0xf5a549627a36b},{351,0xf876e01429992},
{352,0xb3e6d5bf7559},{352,0xc47669453783},{352,0x27f62f01c3f6b},{352,0x2f192081f941e},{352,0x2f9efbd70f37c},{352,0x3483175f1fa43},{352,0x429affc62da4d},{352,0x4a48933c208ad},{352,0x5ad35a8f3d556},{352,0x5bdbd09e396ca},{352,0x5fb367a515c2e},{352,0x66675bd915275},{352,0x66e4f1756df83},{352,0x6d6f0e00524e7},{352,0x708b1eb0ee299},{352,0x74b90417c2bda},{352,0x7f399fe02c4b9},{352,0x97ec96d1333d2},{352,0xa17f2cb3221d8},{352,0xadbba54f5653a},{352,0xb4eef0d065d71},{352,0xbbd83ffa2af26},{352,0xc87f5ef0a788d},{352,0xca92ef7baea72},{352,0xcf5a1f3e5f554},{352,0xda5385eefd7bc},{352,0xe1946f68c73ec},{352,0xe3e87fa944773},{352,0xe58e4b9555ddf},{352,0xf18c15b1f8ec6},{352,0xf50feec5977ff},
{353,0xb3e6d5bf7559},{353,0xb8c0263d6479},{353,0xc47669453783},{353,0x2296eb76728e9},{353,0x2f192081f941e},{353,0x2f9efbd70f37c},{353,0x2fd67a3b6b610},{353,0x3483175f1fa43},{353,0x4a48933c208ad},{353,0x4c8f4bddfd195},{353,0x5729603112c6c},{353,0x5ad35a8f3d556},{353,0x5fb367a515c2e},{353,0x6353b76671f07},{353,0x691769407d917},{353,0x783bf709dba90},{353,0x7e813b27e3968},{353,0x7f399fe02c4b9},{353,0x90a27cd6ff307},{353,0x97ec96d1333d2},{353,0xa749df8f45d07},{353,0xb33d941a98591},{353,0xb42861ee34303},{353,0xba6008389068a},{353,0xbde959510fcca},{353,0xbdf142478c707},{353,0xc1827c5688783},{353,0xc8a4f0748087c},{353,0xcf5a1f3e5f554},{353,0xe58e4b9555ddf},{353,0xeb4007b819b07},{353,0xf18c15b1f8ec6},{353,0xf5a549627a36b},{353,0xf76a5eed78da2},{353,0xfa08f911195cf},
{354,0xb3e6d5bf7559},{354,0xb8c0263d6479},{354,0xd11f7b6b574d},{354,0x1103ae1459acc},{354,0x2f9efbd70f37c},{354,0x30072e7b7ca13},{354,0x3483175f1fa43},{354,0x39874ddd8c623},{354,0x5729603112c6c},{354,0x5ad35a8f3d556},{354,0x5fb367a515c2e},{354,0x656c2aafc3e09},{354,0x775b77f1bdcd8},{354,0x7e813b27e3968},{354,0x7f399fe02c4b9},{354,0x814c6748cfec2},{354,0x89de4b062bde9},{354,0x90a27cd6ff307},{354,0x97964ba0034c7},{354,0x986964ecfc14e},{354,0xa4f8abdea839f},{354,0xa749df8f45d07},{354,0xafb4430218f51},{354,0xb00ad548556aa},{354,0xb42861ee34303},{354,0xba6008389068a},{354,0xbde959510fcca},{354,0xbdf142478c707},{354,0xc1827c5688783},{354,0xc8a4f0748087c},{354,0xcfe75eef6c4b8},{354,0xd5ff6f4abad46},{354,0xd77bf4f0bf9a0},{354,0xec51350a58d59},{354,0xf5a549627a36b},{354,0xfa08f911195cf},
{355,0xb3e6d5bf7559},{355,0xb8c0263d6479},{355,0xdae73e6e38c5},{355,0x1a2cf94764bec},{355,0x296f47d3e799e},{355,0x2f9efbd70f37c},{355,0x30072e7b7ca13},{355,0x362b4550bace4},{355,0x3c8010660a3b8},{355,0x503d8ebd27583},{355,0x5ad35a8f3d556},{355,0x5da022b2f79e5},{355,0x775b77f1bdcd8},{355,0x7e813b27e3968},{355,0x7f399fe02c4b9},{355,0x838d7863e768e},{355,0x89de4b062bde9},{355,0x92db1f45422e6},{355,0x974608381c809},{355,0x97964ba0034c7},{355,0x986964ecfc14e},{355,0x9bf62e3322807},{355,0xa4f8abdea839f},{355,0xa5fae29c3a9bb},{355,0xa749df8f45d07},{355,0xb29d90eb69207},{355,0xb42861ee34303},{355,0xb6e1b6b584c14},{355,0xbde959510fcca},{355,0xc8a4f0748087c},{355,0xcc20046d090c7},{355,0xcfe75eef6c4b8},{355,0xd503f7ec70fd4},{355,0xd9dfd816cb3ce},{355,0xfa08f911195cf},{355,0xfd14379b8a822},
{356,0x14d717ccb05e2},{356,0x179b17f076c83},{356,0x1bbe4a4ee6ba2},{356,0x296f47d3e799e},{356,0x3496128b66f2f},{356,0x3c8010660a3b8},{356,0x491b1a9f2f48a},{356,0x5185e8531c2e6},{356,0x51ef66accded9},{356,0x545473da09f2c},{356,0x59963a1d7b505},{356,0x5ad35a8f3d556},{356,0x5da022b2f79e5},{356,0x775b77f1bdcd8},{356,0x7e813b27e3968},{356,0x7f399fe02c4b9},{356,0x838d7863e768e},{356,0x88da88a2610b5},{356,0x97964ba0034c7},{356,0x986964ecfc14e},{356,0xa1a006e134287},{356,0xa749df8f45d07},{356,0xa89da80444853},{356,0xaa1ecbe64ea47},{356,0xacf3b83d57787},{356,0xb29d90eb69207},{356,0xb42861ee34303},{356,0xb7948e3bc05f6},{356,0xbde959510fcca},{356,0xc8a4f0748087c},{356,0xc8a780a49aeec},{356,0xcc20046d090c7},{356,0xd503f7ec70fd4},{356,0xd9dfd816cb3ce},{356,0xe1442c00e072e},{356,0xf3591d3c5c3ec},{356,0xfa08f911195cf},
{357,0x2a939d6c7043},{357,0xec9cd3075bab},{357,0x12552d04f41fd},{357,0x14d717ccb05e2},{357,0x3496128b66f2f},{357,0x39874ddd8c623},{357,0x3b103b2d59db8},{357,0x461947df3715d},{357,0x491b1a9f2f48a},{357,0x5185e8531c2e6},{357,0x51ef66accded9},{357,0x59963a1d7b505},{357,0x5ad35a8f3d556},{357,0x5c2807d0975dc},{357,0x775b77f1bdcd8},{357,0x7a0a4f50e54d7},{357,0x854ecb7adbe07},{357,0x88e00589d7e83},{357,0x97964ba0034c7},{357,0x986964ecfc14e},{357,0xa1a006e134287},{357,0xa749df8f45d07},{357,0xa89da80444853},{357,0xaa1ecbe64ea47},{357,0xacf3b83d57787},{357,0xbde959510fcca},{357,0xbdf142478c707},{357,0xd3c6d7ddb66f3},{357,0xd9dfd816cb3ce},{357,0xe4e8e4c8a8773},{357,0xf3591d3c5c3ec},{357,0xfa08f911195cf},
{358,0x95cdaa3ac4a0},{358,0x12552d04f41fd},{358,0x14d717ccb05e2},{358,0x1cea9ccb27e28},{358,0x3496128b66f2f},{358,0x491b1a9f2f48a},{358,0x4d1fc2bb65285},{358,0x59963a1d7b505},{358,0x775b77f1bdcd8},{358,0x7a0a4f50e54d7},{358,0x88e00589d7e83},{358,0x90b6a3a1443cf},{358,0x9377692e08047},{358,0x97964ba0034c7},{358,0x9b2f3aee509f6},{358,0xa1a006e134287},{358,0xa7cee7846bc4c},{358,0xa89da80444853},{358,0xa8b455baca3a7},{358,0xa9cf99974a56a},{358,0xaa1ecbe64ea47},{358,0xab894211d30e7},{358,0xac8c4a1fb0360},{358,0xaf1a0b10a1070},{358,0xafc8a494604c7},{358,0xbdf142478c707},{358,0xbf7e8c1663a7f},{358,0xc6c34666767e3},{358,0xd6b1439ee8b0a},{358,0xd9dfd816cb3ce},{358,0xf3591d3c5c3ec},{358,0xf51ecd269b715},{358,0xfa08f911195cf},{358,0xfd7bde88041f9},
{359,0x95cdaa3ac4a0},{359,0xdd7cd9a0ee60},{359,0x11dbf428a7c5b},{359,0x12ed62f085057},{359,0x14d717ccb05e2},{359,0x1cea9ccb27e28},{359,0x3496128b66f2f},{359,0x4214f109fb343},{359,0x491b1a9f2f48a},{359,0x4d1fc2bb65285},{359,0x575030ee26203},{359,0x59963a1d7b505},{359,0x5a6257e6582b3},{359,0x7170688af261a},{359,0x725b072db43a6},{359,0x775b77f1bdcd8},{359,0x786e212acbe87},{359,0x7a0a4f50e54d7},{359,0x7ad3b25f6fbf5},{359,0x81512109d48d1},{359,0x81f44d2b88960},{359,0x90b6a3a1443cf},{359,0xa1a006e134287},{359,0xa7cee7846bc4c},{359,0xa89da80444853},{359,0xa8b455baca3a7},{359,0xa96990d08c6f7},{359,0xa9cf99974a56a},{359,0xaa1ecbe64ea47},{359,0xaad406fc10d97},{359,0xac8c4a1fb0360},{359,0xae88b76b0ff11},{359,0xaf1a0b10a1070},{359,0xafc8a494604c7},{359,0xc6c34666767e3},{359,0xd5d615978f7ab},{359,0xdb311203c8c4d},{359,0xe1a03e15e4452},{359,0xf3591d3c5c3ec},
{360,0x11dbf428a7c5b},{360,0x14d717ccb05e2},{360,0x156135329b644},{360,0x1b319c98301ca},{360,0x2339035a075c5},{360,0x2bfd6bfc40df0},{360,0x3496128b66f2f},{360,0x381a47e0ec5cd},{360,0x4323c02bd15fe},{360,0x45f321bcc6899},{360,0x491b1a9f2f48a},{360,0x4d1fc2bb65285},{360,0x575030ee26203},{360,0x59963a1d7b505},{360,0x5a6257e6582b3},{360,0x725b072db43a6},{360,0x87e92154ef7ac},{360,0x8c631a5471f27},{360,0xa52a2e4dff317},{360,0xa89da80444853},{360,0xa8b455baca3a7},{360,0xa9cf99974a56a},{360,0xac3e7d2795437},{360,0xac8c4a1fb0360},{360,0xaf1a0b10a1070},{360,0xafc8a494604c7},{360,0xc6c34666767e3},{360,0xca364f90ddb3c},{360,0xce4cadff02fc7},{360,0xcf5287cbaa391},{360,0xcfab1a09b49c3},{360,0xd32e2ed44ea67},{360,0xdb311203c8c4d},{360,0xdcd55fca30f2d},{360,0xe238aa7922d53},{360,0xe9e369aa2b597},{360,0xf3fbb3f9c173b},
{361,0x60b714bb3d07},{361,0x64e66018267c},{361,0x119c816655252},{361,0x156135329b644},{361,0x1eaf66ca0cda3},{361,0x2339035a075c5},{361,0x2b525f89826c2},{361,0x2be78af2b727a},{361,0x2bfd6bfc40df0},{361,0x3496128b66f2f},{361,0x392f8423e7f33},{361,0x3d449a2416be4},{361,0x4323c02bd15fe},{361,0x4d1fc2bb65285},{361,0x56ebfd2a518b6},{361,0x6c39ea8933aed},{361,0x7e68ed570a30e},{361,0x803c0f0beeef5},{361,0x8b675e8244e41},{361,0x8c631a5471f27},{361,0x94da6fd901322},{361,0x9e15df74691f7},{361,0xa6ef420464b5f},{361,0xa8b455baca3a7},{361,0xa9cf99974a56a},{361,0xaa7969712fbef},{361,0xac3e7d2795437},{361,0xac8c4a1fb0360},{361,0xafc8a494604c7},{361,0xb8e6457f8d6a1},{361,0xc17b69b457797},{361,0xca364f90ddb3c},{361,0xca87fa32bcbd5},{361,0xce4cadff02fc7},{361,0xcf5287cbaa391},{361,0xcfab1a09b49c3},{361,0xdb311203c8c4d},{361,0xe238aa7922d53},{361,0xf3fbb3f9c173b},{361,0xfa16cdded70aa},
{362,0x6171b17335a1},{362,0x64e66018267c},{362,0x7ce0bb769850},{362,0x92d6c8ff7fa6},{362,0x137edb4c7844b},{362,0x1925e8fee1a36},{362,0x199035a075f89},{362,0x1eaf66ca0cda3},{362,0x2b230134aaa4e},{362,0x2b525f89826c2},{362,0x2be78af2b727a},{362,0x2bfd6bfc40df0},{362,0x3496128b66f2f},{362,0x4323c02bd15fe},{362,0x4d1fc2bb65285},{362,0x5067fe8a4d50e},{362,0x5ffeb886d5eb8},{362,0x7e68ed570a30e},{362,0x8b675e8244e41},{362,0x94286a5f96f69},{362,0x94da6fd901322},{362,0x9e15df74691f7},{362,0xa6ef420464b5f},{362,0xa8b455baca3a7},{362,0xa996df95fcfcb},{362,0xa9cf99974a56a},{362,0xaa7969712fbef},{362,0xafc8a494604c7},{362,0xb7acbe31afddb},{362,0xc85e361e9693f},{362,0xca87fa32bcbd5},{362,0xcc6a5418dfdce},{362,0xce4cadff02fc7},{362,0xcf5287cbaa391},{362,0xdb311203c8c4d},{362,0xf3fbb3f9c173b},{362,0xfa16cdded70aa},{362,0xfa6caccc2a0e3},{362,0xff8ede1189b42},
{363,0x92d6c8ff7fa6},{363,0x943edb4e81db},{363,0xfba278032059},{363,0x137edb4c7844b},{363,0x1925e8fee1a36},{363,0x199035a075f89},{363,0x295fdce22ef5e},{363,0x2be78af2b727a},{363,0x2bfd6bfc40df0},{363,0x322e220a5b17e},{363,0x3496128b66f2f},{363,0x4323c02bd15fe},{363,0x4994b8fe39fa6},{363,0x5ffeb886d5eb8},{363,0x659b192753abd},{363,0x6f6a8f3fa0831},{363,0x70a4168d7e0f7},{363,0x79cb16398654d},{363,0x8c631a5471f27},{363,0x94286a5f96f69},{363,0x94da6fd901322},{363,0x95c62506e5499},{363,0x99fff25591595},{363,0x9db6df6c3d2ef},{363,0xa28290bc66eab},{363,0xa6ef420464b5f},{363,0xab5bf34c62813},{363,0xafc8a494604c7},{363,0xb00495b6773b0},{363,0xb7acbe31afddb},{363,0xb8a207245be2f},{363,0xc4e0ec80535ea},{363,0xc85e361e9693f},{363,0xc96ee81abc514},{363,0xce4cadff02fc7},{363,0xcf5287cbaa391},{363,0xdb311203c8c4d},{363,0xe4e0f3f445d37},{363,0xe9e369aa2b597},{363,0xf3fbb3f9c173b},{363,0xf622b2b4d2d54},{363,0xfa6caccc2a0e3},{363,0xfeb565d5e1abf},
{364,0x943edb4e81db},{364,0x137edb4c7844b},{364,0x199035a075f89},{364,0x295fdce22ef5e},{364,0x2bfd6bfc40df0},{364,0x322e220a5b17e},{364,0x3496128b66f2f},{364,0x4323c02bd15fe},{364,0x5ffeb886d5eb8},{364,0x659b192753abd},{364,0x6f036abf9a810},{364,0x6f6a8f3fa0831},{364,0x755a076f19392},{364,0x7a60a3d21f5eb},{364,0x7a6c942feb8ed},{364,0x7e7a2454fec37},{364,0x7e9fd0d754c8b},{364,0x8c631a5471f27},{364,0x94286a5f96f69},{364,0x99fff25591595},{364,0x9a76d0797ef27},{364,0x9db6df6c3d2ef},{364,0xa28290bc66eab},{364,0xa36c2d39caabb},{364,0xa5ea9448a36a2},{364,0xa6ef420464b5f},{364,0xa9259aa8639b9},{364,0xab5bf34c62813},{364,0xb7acbe31afddb},{364,0xb8a207245be2f},{364,0xba1be182d8318},{364,0xc4e0ec80535ea},{364,0xc85e361e9693f},{364,0xc96ee81abc514},{364,0xce4cadff02fc7},{364,0xcf5287cbaa391},{364,0xd9bb454ff62a9},{364,0xda37d0b01f09b},{364,0xdb311203c8c4d},{364,0xecf33becd5386},{364,0xf3fbb3f9c173b},{364,0xfeb565d5e1abf},
{365,0x943edb4e81db},{365,0x199035a075f89},{365,0x322e220a5b17e},{365,0x3496128b66f2f},{365,0x34cedd3201d27},{365,0x3b5d98d258b4c},{365,0x589add5c5ab9d},{365,0x5ffeb886d5eb8},{365,0x6f036abf9a810},{365,0x786f2c3e4a1ed},{365,0x8728abedae8ec},{365,0x94286a5f96f69},{365,0x9772d5886c6e9},{365,0x9db6df6c3d2ef},{365,0xa28290bc66eab},{365,0xa36c2d39caabb},{365,0xa80a6e566428c},{365,0xa9259aa8639b9},{365,0xaa40c6fa630e6},{365,0xab5bf34c62813},{365,0xad924bf06166d},{365,0xb7acbe31afddb},{365,0xb8a207245be2f},{365,0xb94dc2688b1e3},{365,0xba1be182d8318},{365,0xc4e0ec80535ea},{365,0xc85e361e9693f},{365,0xc96ee81abc514},{365,0xd9bb454ff62a9},{365,0xdb311203c8c4d},{365,0xe3f75776e2126},{365,0xe9c06374bfdc6},{365,0xecf33becd5386},{365,0xf25f75c5274d1},{365,0xf3fbb3f9c173b},{365,0xf93b6edf5f6b4},
{366,0x943edb4e81db},{366,0x322e220a5b17e},{366,0x3496128b66f2f},{366,0x3aa8e8608e746},{366,0x3b5d98d258b4c},{366,0x5ffeb886d5eb8},{366,0x6f036abf9a810},{366,0x7b28de644bf46},{366,0x7dd1b1bd07b56},{366,0x94286a5f96f69},{366,0x9d57e12794937},{366,0x9db6df6c3d2ef},{366,0xa28290bc66eab},{366,0xa36c2d39caabb},{366,0xa80a6e566428c},{366,0xa9259aa8639b9},{366,0xa9b330d16354f},{366,0xaa40c6fa630e6},{366,0xad924bf06166d},{366,0xb41f6ccf7cf62},{366,0xb5e531ac309fd},{366,0xba1be182d8318},{366,0xc4e0ec80535ea},{366,0xc96ee81abc514},{366,0xd9bb454ff62a9},{366,0xdb311203c8c4d},{366,0xecf33becd5386},{366,0xed503f03627c3},{366,0xf3fbb3f9c173b},{366,0xf93b6edf5f6b4},
{367,0x943edb4e81db},{367,0xcac5259ba2ca},{367,0x1581826f6332c},{367,0x15e9844dbafa5},{367,0x1991951ed0fe6},{367,0x2fef5e1878d61},{367,0x30575ff6d09da},{367,0x322e220a5b17e},{367,0x482b0c3ed3449},{367,0x51a1f0053cbb8},{367,0x594b73512ecb6},{367,0x8c631a5471f27},{367,0x90f328c764b79},{367,0x94286a5f96f69},{367,0x9bf6c99feff37},{367,0x9db6df6c3d2ef},{367,0xa36c2d39caabb},{367,0xa5467f896589b},{367,0xa80a6e566428c},{367,0xaace5d2362c7c},{367,0xaca8af72fda5c},{367,0xad924bf06166d},{367,0xba1be182d8318},{367,0xc3b1c258565f1},{367,0xc96ee81abc514},{367,0xcb45330f88a3d},{367,0xd9bb454ff62a9},{367,0xecf33becd5386},{367,0xed503f03627c3},{367,0xf18af750d406d},{367,0xf3fbb3f9c173b},{367,0xf93b6edf5f6b4},
{368,0x943edb4e81db},{368,0xcac5259ba2ca},{368,0x192789300f9c2},{368,0x1d64f7466f008},{368,0x2139b8ec68087},{368,0x30575ff6d09da},{368,0x322e220a5b17e},{368,0x3e07d2c0cb1e9},{368,0x40cbc18dc9bd9},{368,0x482b0c3ed3449},{368,0x4a5d39c18e796},{368,0x51a1f0053cbb8},{368,0x594b73512ecb6},{368,0x7ccfc72347b28},{368,0x85dee8c40a768},{368,0x90f328c764b79},{368,0x9a36c4556b0d9},{368,0xa36c2d39caabb},{368,0xa80a6e566428c},{368,0xaace5d2362c7c},{368,0xaca8af72fda5c},{368,0xb5de18575d43e},{368,0xba1be182d8318},{368,0xbf21b3e56399e},{368,0xc1e79907f383a},{368,0xce82840efaa9f},{368,0xd43a5de23f0f0},{368,0xe550379573de5},{368,0xecf33becd5386},{368,0xee58da41a5ec8},{368,0xf18af750d406d},
{369,0x32907bb91373},{369,0x90684f5fe997},{369,0x943edb4e81db},{369,0x16532be49b8c7},{369,0x192789300f9c2},{369,0x1f0b3fe9b5666},{369,0x2139b8ec68087},{369,0x22640b6942963},{369,0x25b708c38271c},{369,0x27cf38b99d3ed},{369,0x30575ff6d09da},{369,0x322e220a5b17e},{369,0x3e07d2c0cb1e9},{369,0x484509cb73ac5},{369,0x4a5d39c18e796},{369,0x55e12b3658e44},{369,0x5d36e9687faef},{369,0x62e81c5186a0f},{369,0x6ad30ad364e6e},{369,0x6bc06c64a3990},{369,0x6c8f1a831bfe1},{369,0x6ceb3ac97fb3f},{369,0x791f7c7f6210a},{369,0x7ccfc72347b28},{369,0x85dee8c40a768},{369,0x90f328c764b79},{369,0x9ffd652371540},{369,0xa80a6e566428c},{369,0xaace5d2362c7c},{369,0xb6471fdcdf299},{369,0xba1be182d8318},{369,0xbf21b3e56399e},{369,0xc1e79907f383a},{369,0xc72b1fb28ba04},{369,0xce82840efaa9f},{369,0xd43a5de23f0f0},{369,0xdfcfaaee2f4ce},{369,0xe550379573de5},{369,0xed2cc05b41b08},{369,0xee58da41a5ec8},{369,0xf18af750d406d},
{370,0x32907bb91373},{370,0x90684f5fe997},{370,0xfcb8cccc1d51},{370,0x1f0b3fe9b5666},{370,0x22640b6942963},{370,0x289cb0fa083f2},{370,0x322e220a5b17e},{370,0x3e07d2c0cb1e9},{370,0x4a5d39c18e796},{370,0x55e12b3658e44},{370,0x59ab9a1853a6e},{370,0x5eb1a0d64c6d5},{370,0x6bc06c64a3990},{370,0x7309208b97a3a},{370,0x791f7c7f6210a},{370,0x7ccfc72347b28},{370,0x7ec121a5405ad},{370,0x90f328c764b79},{370,0x938d582877b3f},{370,0x9ffd652371540},{370,0xa80a6e566428c},{370,0xad0ca35324c2c},{370,0xafef0ce3475c0},{370,0xba1be182d8318},{370,0xc0a3809ab1e8e},{370,0xc24f9ae64b4b3},{370,0xc72b1fb28ba04},{370,0xcc3a24c45db98},{370,0xd43a5de23f0f0},{370,0xdd0bbc2130add},{370,0xde6815302e555},{370,0xe1499c11f27dc},{370,0xe64ba74c3c3d2},{370,0xe6e8566059677},{370,0xee58da41a5ec8},{370,0xf18af750d406d},{370,0xf669429474aa9},{370,0xfb1c686126df9},
{371,0x32907bb91373},{371,0x90684f5fe997},{371,0xc87bd40d4f96},{371,0xfcb8cccc1d51},{371,0x1f0b3fe9b5666},{371,0x2a743576226f4},{371,0x2d65698231ab8},{371,0x3e07d2c0cb1e9},{371,0x4443c52d36ca0},{371,0x4a5d39c18e796},{371,0x4ee2753b53a22},{371,0x55e12b3658e44},{371,0x6bc06c64a3990},{371,0x7309208b97a3a},{371,0x791f7c7f6210a},{371,0x7ccfc72347b28},{371,0x87da253652893},{371,0x90f328c764b79},{371,0xa484f5f3d2b60},{371,0xa80a6e566428c},{371,0xa9e9c894ec8db},{371,0xad0ca35324c2c},{371,0xafef0ce3475c0},{371,0xb394426afe7a2},{371,0xba1be182d8318},{371,0xc0a3809ab1e8e},{371,0xc3e750269ec49},{371,0xc72b1fb28ba04},{371,0xc8690f7aa2fa9},{371,0xcdb2beca6557a},{371,0xd43a5de23f0f0},{371,0xdd0bbc2130add},{371,0xde6815302e555},{371,0xee58da41a5ec8},{371,0xf18af750d406d},{371,0xf653afd8fd733},
{372,0x32907bb91373},{372,0x90684f5fe997},{372,0x19ac8026ccd52},{372,0x1e2558d4ac40e},{372,0x1f0b3fe9b5666},{372,0x28da3a5fe1a86},{372,0x2a743576226f4},{372,0x2b010d3e1cf55},{372,0x2d65698231ab8},{372,0x36f6da9284844},{372,0x3e07d2c0cb1e9},{372,0x4443c52d36ca0},{372,0x4a5d39c18e796},{372,0x55e12b3658e44},{372,0x6285efdae9323},{372,0x6bc06c64a3990},{372,0x7309208b97a3a},{372,0x791f7c7f6210a},{372,0x82e81c0cd0202},{372,0x875bc78cfb532},{372,0x8c6687dbe42de},{372,0x8c66a6fedba06},{372,0x90aa5e8b8d344},{372,0x90f328c764b79},{372,0xa484f5f3d2b60},{372,0xa80a6e566428c},{372,0xa9e9c894ec8db},{372,0xad0ca35324c2c},{372,0xafef0ce3475c0},{372,0xb6d811f6eb55d},{372,0xba1be182d8318},{372,0xbd5fb10ec50d3},{372,0xc0a3809ab1e8e},{372,0xc3e750269ec49},{372,0xc672854e82f9f},{372,0xc72b1fb28ba04},{372,0xc8690f7aa2fa9},{372,0xca6eef3e787bf},{372,0xcc77c99cddc84},{372,0xcdb2beca6557a},{372,0xd419a02a17e06},{372,0xdcf5fdb9be97e},{372,0xdd0bbc2130add},{372,0xee58da41a5ec8},{372,0xf3ef5394e8bd0},{372,0xf653afd8fd733},
{373,0x32907bb91373},{373,0x3b77d2b969d9},{373,0x90684f5fe997},{373,0x2a743576226f4},{373,0x2b010d3e1cf55},{373,0x3e07d2c0cb1e9},{373,0x4443c52d36ca0},{373,0x4a5d39c18e796},{373,0x64cdc6850a189},{373,0x66ce0fe422c00},{373,0x7309208b97a3a},{373,0x82e81c0cd0202},{373,0x875bc78cfb532},{373,0x8c6687dbe42de},{373,0x8c66a6fedba06},{373,0x90aa5e8b8d344},{373,0x996b94780bbe1},{373,0x9a97aa3faff52},{373,0x9cb9959784785},{373,0xa80a6e566428c},{373,0xa9e9c894ec8db},{373,0xad0ca35324c2c},{373,0xafef0ce3475c0},{373,0xbd5fb10ec50d3},{373,0xc0a3809ab1e8e},{373,0xc3e750269ec49},{373,0xc672854e82f9f},{373,0xc72b1fb28ba04},{373,0xc8690f7aa2fa9},{373,0xcdb2beca6557a},{373,0xd419a02a17e06},{373,0xdcf5fdb9be97e},{373,0xdd0bbc2130add},{373,0xde05cc8605a21},{373,0xde6815302e555},{373,0xee58da41a5ec8},{373,0xf3797624fa35d},{373,0xf3ef5394e8bd0},{373,0xf653afd8fd733},
{374,0x3b77d2b969d9},{374,0x90684f5fe997},{374,0x2a743576226f4},{374,0x2b010d3e1cf55},{374,0x33fb67204da7e},{374,0x3b1d964eb342f},{374,0x3e07d2c0cb1e9},{374,0x64cdc6850a189},{374,0x7309208b97a3a},{374,0x7c137a2043e37},{374,0x8c66a6fedba06},{374,0x90aa5e8b8d344},{374,0x95a104659e94b},{374,0x996b94780bbe1},{374,0x9a97aa3faff52},{374,0xa69c8e54bcf88},{374,0xa80a6e566428c},{374,0xa9e9c894ec8db},{374,0xad0ca35324c2c},{374,0xafef0ce3475c0},{374,0xbd5fb10ec50d3},{374,0xc0a3809ab1e8e},{374,0xc24cd9103af8a},{374,0xc3e750269ec49},{374,0xc672854e82f9f},{374,0xc8690f7aa2fa9},{374,0xcdb2beca6557a},{374,0xd05cf8e78eaf7},{374,0xdcf5fdb9be97e},{374,0xdd0bbc2130add},{374,0xde05cc8605a21},{374,0xde6815302e555},{374,0xe728d6565d24f},{374,0xf653afd8fd733},
{375,0x3b77d2b969d9},{375,0x90684f5fe997},{375,0x10e6ab30c7be0},{375,0x2b010d3e1cf55},{375,0x34e3e1bf59b4d},{375,0x3b1d964eb342f},{375,0x3e07d2c0cb1e9},{375,0x4870551628915},{375,0x4cfcd6deb1a88},{375,0x5012268287d33},{375,0x64cdc6850a189},{375,0x661046531ccc1},{375,0x6cb1beeec6a47},{375,0x7309208b97a3a},{375,0x7c137a2043e37},{375,0x84b4913725a55},{375,0x90aa5e8b8d344},{375,0x95a104659e94b},{375,0xa69c8e54bcf88},{375,0xa80a6e566428c},{375,0xa97b9bcde4167},{375,0xafef0ce3475c0},{375,0xbd5fb10ec50d3},{375,0xc0a3809ab1e8e},{375,0xc672854e82f9f},{375,0xc8690f7aa2fa9},{375,0xcdb2beca6557a},{375,0xd05cf8e78eaf7},{375,0xd399f8cb43635},{375,0xdd0bbc2130add},{375,0xde6815302e555},{375,0xf653afd8fd733},
{376,0x3b77d2b969d9},{376,0x6f95f7ca4fd2},{376,0x90684f5fe997},{376,0x14942c3fdac95},{376,0x196b613c69363},{376,0x1c4daf7578293},{376,0x1f6a89bd24f04},{376,0x2410d2e4cbc2f},{376,0x2b010d3e1cf55},{376,0x34e3e1bf59b4d},{376,0x3adc21f2629ef},{376,0x3e07d2c0cb1e9},{376,0x3f5751851662f},{376,0x4870551628915},{376,0x4cfcd6deb1a88},{376,0x5012268287d33},{376,0x55b96ceb5520e},{376,0x5615da6fc3d6e},{376,0x57dacf3aa14d5},{376,0x661046531ccc1},{376,0x6cb1beeec6a47},{376,0x7309208b97a3a},{376,0x7c137a2043e37},{376,0x89fcbb54934be},{376,0x8ababab621a5f},{376,0x90aa5e8b8d344},{376,0x973caae6dfe35},{376,0xa69c8e54bcf88},{376,0xa80a6e566428c},{376,0xbd5fb10ec50d3},{376,0xbfbc0880ee2b1},{376,0xcdb2beca6557a},{376,0xda7983ed12b04},{376,0xdd0bbc2130add},{376,0xf011e0f7a3ab6},{376,0xf4bd564bbab02},{376,0xfa8e156cbd619},
{377,0x3b77d2b969d9},{377,0x90684f5fe997},{377,0x14942c3fdac95},{377,0x196b613c69363},{377,0x1c4daf7578293},{377,0x1fca9cbefbdf5},{377,0x21f15374309c3},{377,0x2898c89a68ef0},{377,0x2b010d3e1cf55},{377,0x34e3e1bf59b4d},{377,0x3adc21f2629ef},{377,0x3e07d2c0cb1e9},{377,0x3f5751851662f},{377,0x416dee3c5f215},{377,0x4d7a14093b407},{377,0x5012268287d33},{377,0x5615da6fc3d6e},{377,0x7309208b97a3a},{377,0x75b0178eed372},{377,0x86b8ebc8a6703},{377,0x89fcbb54934be},{377,0x90aa5e8b8d344},{377,0x9a51752fcc32b},{377,0x9e875beb2aa9f},{377,0xa80a6e566428c},{377,0xc08193dd2b700},{377,0xcdb2beca6557a},{377,0xd582de13014fd},{377,0xdd0bbc2130add},{377,0xf011e0f7a3ab6},{377,0xf9223b6dcb303},{377,0xf995740e6611d},
{378,0x3b77d2b969d9},{378,0x90684f5fe997},{378,0x95dbbc0b9b35},{378,0x9bcc179f16be},{378,0x1002965087636},{378,0x14942c3fdac95},{378,0x157bec35179ad},{378,0x196b613c69363},{378,0x1c4daf7578293},{378,0x1fca9cbefbdf5},{378,0x204039e52d09d},{378,0x21f15374309c3},{378,0x2898c89a68ef0},{378,0x2b010d3e1cf55},{378,0x34bec3df7884b},{378,0x34e3e1bf59b4d},{378,0x36377dbd3e0b5},{378,0x3e07d2c0cb1e9},{378,0x412efae44a7aa},{378,0x5012268287d33},{378,0x7309208b97a3a},{378,0x75b0178eed372},{378,0x7ea6789cfe57b},{378,0x90aa5e8b8d344},{378,0x97a66ca61af32},{378,0x9b21723567d15},{378,0x9e875beb2aa9f},{378,0xa313ddb3b3c12},{378,0xa80a6e566428c},{378,0xa814cdbdfff3b},{378,0xcdb2beca6557a},{378,0xd953580cf6377},{378,0xdd0bbc2130add},{378,0xf011e0f7a3ab6},{378,0xf995740e6611d},
{379,0x2cbd1567218c},{379,0x3b77d2b969d9},{379,0x724f766c8118},{379,0x90684f5fe997},{379,0x917d72bd3eca},{379,0x9bcc179f16be},{379,0xbc1afeae18ef},{379,0xf4138958b1a2},{379,0x14942c3fdac95},{379,0x157bec35179ad},{379,0x196b613c69363},{379,0x1a2f647f6b545},{379,0x1c4daf7578293},{379,0x1fca9cbefbdf5},{379,0x204039e52d09d},{379,0x21f15374309c3},{379,0x22d803f856643},{379,0x2565d4fe8c6a5},{379,0x2715128df0dd7},{379,0x2898c89a68ef0},{379,0x2b010d3e1cf55},{379,0x34bec3df7884b},{379,0x34e3e1bf59b4d},{379,0x3a117cb3a9cb1},{379,0x3e8b1089e4b6e},{379,0x412efae44a7aa},{379,0x5012268287d33},{379,0x5a3e1d1b73099},{379,0x603c57afada31},{379,0x63113fb9c2635},{379,0x633c4e368bd82},{379,0x7ea6789cfe57b},{379,0x90aa5e8b8d344},{379,0x943c0051b9095},{379,0x9b21723567d15},{379,0xa814cdbdfff3b},{379,0xaabf78bcf4a74},{379,0xab27c8262a691},{379,0xb9d2669e61351},{379,0xc992df55abb64},{379,0xd8b313b1d45bb},{379,0xd953580cf6377},{379,0xe02915f0f6ee3},{379,0xe3b36899435fc},{379,0xeced4d45740f4},{379,0xf011e0f7a3ab6},
{380,0x2cbd1567218c},{380,0x3b77d2b969d9},{380,0x5e92b2638592},{380,0x724f766c8118},{380,0x7acc684970e8},{380,0x90684f5fe997},{380,0x917d72bd3eca},{380,0xbc1afeae18ef},{380,0xc23dec5c4d9d},{380,0xef8f4004a3e5},{380,0xf4138958b1a2},{380,0x12968893a5629},{380,0x1850fc6a3b260},{380,0x18d84fe31e6dd},{380,0x196b613c69363},{380,0x1a2f647f6b545},{380,0x1cfd009f3399d},{380,0x1e63ceaf17bc9},{380,0x1fca9cbefbdf5},{380,0x204039e52d09d},{380,0x21f15374309c3},{380,0x229838dec424d},{380,0x22d803f856643},{380,0x257bee52bc27f},{380,0x2715128df0dd7},{380,0x2898c89a68ef0},{380,0x2b010d3e1cf55},{380,0x2de9eb36b4b11},{380,0x3a117cb3a9cb1},{380,0x3e8b1089e4b6e},{380,0x4116d591ef1fa},{380,0x412efae44a7aa},{380,0x4709267befac5},{380,0x5012268287d33},{380,0x5a3e1d1b73099},{380,0x5ce20775d8cd5},{380,0x90aa5e8b8d344},{380,0x943c0051b9095},{380,0x94629d1a2e177},{380,0xa814cdbdfff3b},{380,0xb9d2669e61351},{380,0xc992df55abb64},{380,0xd331a4b10d3f5},{380,0xdcd26026a7b0d},{380,0xe3b36899435fc},{380,0xe4bd5bf33aa70},{380,0xe672208f25ae2},{380,0xeced4d45740f4},{380,0xf011e0f7a3ab6},
{381,0xc15b03728ae},{381,0xf4e76160e2d},{381,0x2cbd1567218c},{381,0x90684f5fe997},{381,0xbc1afeae18ef},{381,0xc23dec5c4d9d},{381,0xef8f4004a3e5},{381,0x125e9265515a8},{381,0x18d84fe31e6dd},{381,0x196b613c69363},{381,0x1b96328f4f771},{381,0x1cd5cd90cb200},{381,0x1cfd009f3399d},{381,0x1e63ceaf17bc9},{381,0x1fca9cbefbdf5},{381,0x204039e52d09d},{381,0x21316acee0021},{381,0x21f15374309c3},{381,0x23aaa6398ef3a},{381,0x2715128df0dd7},{381,0x2898c89a68ef0},{381,0x2b010d3e1cf55},{381,0x2de9eb36b4b11},{381,0x35748a5d91735},{381,0x390519dd0650d},{381,0x4116d591ef1fa},{381,0x412efae44a7aa},{381,0x4709267befac5},{381,0x5012268287d33},{381,0x5a3e1d1b73099},{381,0x8f187458e1066},{381,0x915dc5937f45a},{381,0x9235ce28a746b},{381,0x943c0051b9095},{381,0xa814cdbdfff3b},{381,0xb9d2669e61351},{381,0xc992df55abb64},{381,0xce39e387ff091},{381,0xd26898e842c0b},{381,0xd331a4b10d3f5},{381,0xdcd26026a7b0d},{381,0xe4bd5bf33aa70},{381,0xe8b33b7ad34ca},{381,0xf011e0f7a3ab6},{381,0xf604e19e04efd},
{382,0xf4e76160e2d},{382,0x2cbd1567218c},{382,0x90684f5fe997},{382,0xbc1afeae18ef},{382,0xef8f4004a3e5},{382,0x125e9265515a8},{382,0x15fafa4fbeec1},{382,0x1cd5cd90cb200},{382,0x1cfd009f3399d},{382,0x1db067a725ab3},{382,0x1e63ceaf17bc9},{382,0x1f1735b709cdf},{382,0x1fca9cbefbdf5},{382,0x204039e52d09d},{382,0x23aaa6398ef3a},{382,0x23ff06eea8479},{382,0x2898c89a68ef0},{382,0x2b010d3e1cf55},{382,0x2de9eb36b4b11},{382,0x3d3f2b805009b},{382,0x3efe08dc9e422},{382,0x4116d591ef1fa},{382,0x412efae44a7aa},{382,0x4709267befac5},{382,0x4d9e298f52f01},{382,0x5a3e1d1b73099},{382,0x6b100b09ecaf2},{382,0x723a61ce5af55},{382,0x773d0eb696097},{382,0x8bfb1a891ac60},{382,0x8d1d65967e75d},{382,0x8f187458e1066},{382,0x943c0051b9095},{382,0x94f11b2f8ee3a},{382,0x98945b44c9658},{382,0x9b8ddb97fa07c},{382,0xb9d2669e61351},{382,0xc992df55abb64},{382,0xd092bf226f1ca},{382,0xe4bd5bf33aa70},{382,0xe8b33b7ad34ca},{382,0xfc49a90de4f53},
{383,0xf4e76160e2d},{383,0x2cbd1567218c},{383,0x174deabea8462},{383,0x197bfd777942f},{383,0x1cd5cd90cb200},{383,0x1cfd009f3399d},{383,0x1e0a1b2b1eb3e},{383,0x1e63ceaf17bc9},{383,0x1ebd823310c54},{383,0x1f1735b709cdf},{383,0x204039e52d09d},{383,0x207e03c6edf0b},{383,0x23ff06eea8479},{383,0x2de9eb36b4b11},{383,0x3d3f2b805009b},{383,0x4116d591ef1fa},{383,0x412efae44a7aa},{383,0x4709267befac5},{383,0x476375efc66f6},{383,0x4bbea44de189a},{383,0x5a3e1d1b73099},{383,0x5e653b84c9ef8},{383,0x68bd95e904898},{383,0x6a13460937111},{383,0x6b100b09ecaf2},{383,0x6cd5986b5c429},{383,0x723a61ce5af55},{383,0x773d0eb696097},{383,0x793e0e9e0090f},{383,0x8554da73cd6af},{383,0x8bfb1a891ac60},{383,0x94f11b2f8ee3a},{383,0x983e00208e185},{383,0xb0a427c11d365},{383,0xb13af1ecdc093},{383,0xbab35db5b88b3},{383,0xbed22b5531182},{383,0xc79ef60beacaa},{383,0xc992df55abb64},{383,0xd092bf226f1ca},{383,0xd331a4b10d3f5},{383,0xe672208f25ae2},{383,0xe75920fb13daf},{383,0xf1d165047c681},{383,0xfc49a90de4f53},
{384,0xf4e76160e2d},{384,0x1e89798f8a0d},{384,0x1279f72804953},{384,0x1b3c7f0b566e6},{384,0x1cd5cd90cb200},{384,0x1cfd009f3399d},{384,0x1e63ceaf17bc9},{384,0x1ebd823310c54},{384,0x204039e52d09d},{384,0x207e03c6edf0b},{384,0x223e855acb1c2},{384,0x23ff06eea8479},{384,0x2c3e72d179606},{384,0x358416b54bf9f},{384,0x3b38b9492fe10},{384,0x4116d591ef1fa},{384,0x412efae44a7aa},{384,0x4bbea44de189a},{384,0x561f82f71b94e},{384,0x56f636fea5b12},{384,0x5a3e1d1b73099},{384,0x6097c70084220},{384,0x68bd95e904898},{384,0x6b100b09ecaf2},{384,0x6cd5986b5c429},{384,0x723a61ce5af55},{384,0x7488daf967213},{384,0x793e0e9e0090f},{384,0x8000931cbdc96},{384,0x8554da73cd6af},{384,0x8bfb1a891ac60},{384,0x8e4ed45bb38a7},{384,0x94f11b2f8ee3a},{384,0xadd8fca99e616},{384,0xae46ecd5c4f15},{384,0xb13af1ecdc093},{384,0xb80fca959fdcd},{384,0xc79ef60beacaa},{384,0xd092bf226f1ca},{384,0xd331a4b10d3f5},{384,0xf1d165047c681},{384,0xf2de916f1947f},{384,0xf9b84df0b388e},
{385,0x1e89798f8a0d},{385,0xecb944a1ed57},{385,0x1279f72804953},{385,0x1b3c7f0b566e6},{385,0x1cd5cd90cb200},{385,0x1cfd009f3399d},{385,0x1e63ceaf17bc9},{385,0x1ebd823310c54},{385,0x204039e52d09d},{385,0x207e03c6edf0b},{385,0x23ff06eea8479},{385,0x2517a3a31c441},{385,0x2c3e72d179606},{385,0x2cc18ed1fa20c},{385,0x3b38b9492fe10},{385,0x4116d591ef1fa},{385,0x4ba73eedb307c},{385,0x561f82f71b94e},{385,0x56f636fea5b12},{385,0x5a3e1d1b73099},{385,0x6097c70084220},{385,0x65d3e90538689},{385,0x68bd95e904898},{385,0x6b100b09ecaf2},{385,0x7488daf967213},{385,0x75884f13553c4},{385,0x793e0e9e0090f},{385,0x7b9855cfdac37},{385,0x8000931cbdc96},{385,0x94f11b2f8ee3a},{385,0x95e78f49ccbab},{385,0x9eb42bc6e5afa},{385,0xadd8fca99e616},{385,0xb13af1ecdc093},{385,0xbf6cd5fc1a070},{385,0xc79ef60beacaa},{385,0xd092bf226f1ca},{385,0xd331a4b10d3f5},{385,0xe1b8a848c4325},{385,0xf1d165047c681},{385,0xf2de916f1947f},{385,0xfd22ba451572b},{385,0xfda3c38da466e},
{386,0x138a93efc44d},{386,0x1e89798f8a0d},{386,0x2023d4ab72ed},{386,0x132826710c447},{386,0x1b3c7f0b566e6},{386,0x1cd5cd90cb200},{386,0x1ebd823310c54},{386,0x23ff06eea8479},{386,0x2517a3a31c441},{386,0x2c3e72d179606},{386,0x4116d591ef1fa},{386,0x4e8d3452e92ff},{386,0x4fcbae5f41858},{386,0x561f82f71b94e},{386,0x5a3e1d1b73099},{386,0x5b5ba4fbcfdb7},{386,0x6097c70084220},{386,0x65d3e90538689},{386,0x68bd95e904898},{386,0x6b100b09ecaf2},{386,0x704c2d0ea0f5b},{386,0x793e0e9e0090f},{386,0x7ad53162c5b06},{386,0x7b9855cfdac37},{386,0x88d4ca5a2f1e2},{386,0x94f11b2f8ee3a},{386,0xadd8fca99e616},{386,0xae8c63b19072c},{386,0xc63daa6a87c18},{386,0xc79ef60beacaa},{386,0xc94a6f5e99a54},{386,0xd092bf226f1ca},{386,0xe1b8a848c4325},{386,0xe6be5bdaa52e8},{386,0xf1d165047c681},{386,0xf2de916f1947f},{386,0xf566b9e4e52f7},{386,0xfd22ba451572b},
{387,0x132826710c447},{387,0x1b3c7f0b566e6},{387,0x1cd5cd90cb200},{387,0x1ebd823310c54},{387,0x23ff06eea8479},{387,0x2c3e72d179606},{387,0x2eac644e8402b},{387,0x4257870eb7a7f},{387,0x466b1ce8fec13},{387,0x5073630e6f7c0},{387,0x6097c70084220},{387,0x64f5cff60f1ee},{387,0x65d3e90538689},{387,0x66a4f2f2509c0},{387,0x68bd95e904898},{387,0x68e5b430b5b0c},{387,0x793e0e9e0090f},{387,0x7ac471180982d},{387,0x7ad53162c5b06},{387,0x7bb787ff12e3e},{387,0x88d4ca5a2f1e2},{387,0x94f11b2f8ee3a},{387,0x9e40ffd6cdaed},{387,0xa7bdf8e1d4dc0},{387,0xa7be2607859d6},{387,0xab0b6089d61be},{387,0xacb3c4be4f1d6},{387,0xadd8fca99e616},{387,0xb5fe8a65fc6b6},{387,0xc98524c77116b},{387,0xce1074647de4f},{387,0xd092bf226f1ca},{387,0xd5bda32bce853},{387,0xf1d165047c681},{387,0xf471b9868f1be},{387,0xfd22ba451572b},{387,0xfefe4c21a67d4},
{388,0x132826710c447},{388,0x1cd5cd90cb200},{388,0x1ebd823310c54},{388,0x23ff06eea8479},{388,0x29bd32f034370},{388,0x2c3e72d179606},{388,0x2eac644e8402b},{388,0x36a4984f9d4e0},{388,0x466b1ce8fec13},{388,0x6097c70084220},{388,0x64f5cff60f1ee},{388,0x65d3e90538689},{388,0x67fc85febb42e},{388,0x71dd72c9bdb09},{388,0x7ac471180982d},{388,0x883dc7656cb2c},{388,0x97fde023a0c76},{388,0x9ac4478c3f1dc},{388,0x9e40ffd6cdaed},{388,0xa7bdf8e1d4dc0},{388,0xab0b6089d61be},{388,0xacb3c4be4f1d6},{388,0xadd8fca99e616},{388,0xaf1dc54714447},{388,0xb7ae8e09b8340},{388,0xbea341f05f1d0},{388,0xc79b0089671cd},{388,0xd092bf226f1ca},{388,0xda7e6b43d1745},{388,0xe2823c547f1c4},{388,0xe353ef864344b},{388,0xf03b54e5ac5bb},{388,0xf471b9868f1be},{388,0xfd22ba451572b},{388,0xfefe4c21a67d4},
{389,0xc00868c4e09},{389,0x9195980f9a25},{389,0xb485dfbbf20c},{389,0xcc3a60340cf9},{389,0x132826710c447},{389,0x17a405bd90446},{389,0x23ff06eea8479},{389,0x29bd32f034370},{389,0x2c3e72d179606},{389,0x2eac644e8402b},{389,0x36a4984f9d4e0},{389,0x5a760042ea055},{389,0x6097c70084220},{389,0x621e297a8d13e},{389,0x64f5cff60f1ee},{389,0x6bf5afc2d2854},{389,0x71dd72c9bdb09},{389,0x7f3eb9193cddf},{389,0x97fde023a0c76},{389,0xa7bdf8e1d4dc0},{389,0xab0b6089d61be},{389,0xaf1dc54714447},{389,0xafb65a089ee8b},{389,0xb5ab8357571d3},{389,0xb7ae8e09b8340},{389,0xbd525684c2e84},{389,0xbea341f05f1d0},{389,0xc73e2a5e3d054},{389,0xc79b0089671cd},{389,0xcc16dfd5eb1cc},{389,0xd092bf226f1ca},{389,0xd98a7dbb771c7},{389,0xda7e6b43d1745},{389,0xda9cc95f29c34},{389,0xe2823c547f1c4},{389,0xeb79faed871c1},{389,0xf03b54e5ac5bb},
{390,0xec84de220d3f},{390,0x114e977cef86a},{390,0x23ff06eea8479},{390,0x29bd32f034370},{390,0x2c3e72d179606},{390,0x2eac644e8402b},{390,0x36a4984f9d4e0},{390,0x3776a14319057},{390,0x381f16f8e71fd},{390,0x472e4e26033a2},{390,0x519ee003f292c},{390,0x6097c70084220},{390,0x621e297a8d13e},{390,0x64f5cff60f1ee},{390,0x787daea7389e2},{390,0x7f3eb9193cddf},{390,0x8ef50ec2a3852},{390,0x91cc88f3371df},{390,0x97fde023a0c76},{390,0x9fddec82bad1b},{390,0xab0b6089d61be},{390,0xaf1dc54714447},{390,0xb7ae8e09b8340},{390,0xbea341f05f1d0},{390,0xc28e7889772ed},{390,0xc31f213ce31cf},{390,0xc73e2a5e3d054},{390,0xc79b0089671cd},{390,0xc83e7ad4e6efd},{390,0xc8a2ed2f59cd9},{390,0xcc16dfd5eb1cc},{390,0xd092bf226f1ca},{390,0xd50e9e6ef31c9},{390,0xd7c1a0ccc7e07},{390,0xd98a7dbb771c7},{390,0xda9cc95f29c34},{390,0xeb79faed871c1},{390,0xf03b54e5ac5bb},{390,0xf0feafb9ef743},
{391,0xec84de220d3f},{391,0x114e977cef86a},{391,0x16621ae116948},{391,0x1ec6852734738},{391,0x2047fd620953e},{391,0x23ff06eea8479},{391,0x29bd32f034370},{391,0x2c3e72d179606},{391,0x2eac644e8402b},{391,0x32fa69a69bd6d},{391,0x36a4984f9d4e0},{391,0x39b6607bbe4d4},{391,0x472e4e26033a2},{391,0x519ee003f292c},{391,0x56856854027b4},{391,0x6097c70084220},{391,0x6ab349994d4e9},{391,0x787daea7389e2},{391,0x91cc88f3371df},{391,0x97fde023a0c76},{391,0x9fddec82bad1b},{391,0xa623b2a3b336b},{391,0xa837e571cb1d8},{391,0xa861ce71f1ce0},{391,0xab0b6089d61be},{391,0xb7ae8e09b8340},{391,0xbea341f05f1d0},{391,0xc79b0089671cd},{391,0xcc16dfd5eb1cc},{391,0xd092bf226f1ca},{391,0xd50e9e6ef31c9},{391,0xda9cc95f29c34},{391,0xe6737c422e04d},{391,0xe84320e493106},{391,0xeb79faed871c1},{391,0xed017b8dd215f},{391,0xf03b54e5ac5bb},{391,0xf0feafb9ef743},
{392,0xf2abb60d8dd},{392,0x18e7ebebb720},{392,0x114e977cef86a},{392,0x16621ae116948},{392,0x23ff06eea8479},{392,0x25827bfc56e9f},{392,0x2683599859f14},{392,0x2820464447142},{392,0x29bd32f034370},{392,0x29c19b9e77196},{392,0x2c3e72d179606},{392,0x32fa69a69bd6d},{392,0x39b6607bbe4d4},{392,0x3a948d44b74b8},{392,0x4ea5452428b70},{392,0x504a6b6aabf8f},{392,0x54a63bd048270},{392,0x56856854027b4},{392,0x591127e070559},{392,0x5d8d072cf4557},{392,0x91cc88f3371df},{392,0x9475da33c717f},{392,0x97fde023a0c76},{392,0x99ab1b64538e1},{392,0x9fddec82bad1b},{392,0xa837e571cb1d8},{392,0xa861ce71f1ce0},{392,0xaa969420a9d89},{392,0xbea341f05f1d0},{392,0xcc16dfd5eb1cc},{392,0xcff8d77725a23},{392,0xd092bf226f1ca},{392,0xd50e9e6ef31c9},{392,0xd8366d35f423c},{392,0xda9cc95f29c34},{392,0xdd7a3b54004f5},{392,0xe6737c422e04d},{392,0xeb79faed871c1},{392,0xee9e6839bf38d},{392,0xf03b54e5ac5bb},
{393,0xf2abb60d8dd},{393,0x114e977cef86a},{393,0x16621ae116948},{393,0x17c7bf6ea723b},{393,0x21b3ba7a53205},{393,0x23ff06eea8479},{393,0x2683599859f14},{393,0x28eebc9a3da59},{393,0x29c19b9e77196},{393,0x2c3e72d179606},{393,0x2e93f8f3fb9fa},{393,0x32fa69a69bd6d},{393,0x3bbb77ce470f1},{393,0x4ea5452428b70},{393,0x54954893ec55a},{393,0x54a63bd048270},{393,0x562edc1fad33e},{393,0x579e8612566c8},{393,0x6708547567644},{393,0x6b00a51280553},{393,0x710b7a2ef18b7},{393,0x76520df9f4773},{393,0x822f327ed06e5},{393,0x91cc88f3371df},{393,0x9fddec82bad1b},{393,0xbea341f05f1d0},{393,0xc83e7ad4e6efd},{393,0xccb143d656802},{393,0xcff8d77725a23},{393,0xd50e9e6ef31c9},{393,0xda9cc95f29c34},{393,0xdb558476f967c},{393,0xdd7a3b54004f5},{393,0xe6737c422e04d},{393,0xee9e6839bf38d},{393,0xef6cde8fb5ca4},{393,0xf03b54e5ac5bb},
{394,0xf2abb60d8dd},{394,0x25923a227e35},{394,0x114e977cef86a},{394,0x1153331830571},{394,0x16621ae116948},{394,0x1d270cc51055e},{394,0x1f8e4be5b2f1f},{394,0x2683599859f14},{394,0x28eebc9a3da59},{394,0x29c19b9e77196},{394,0x2a8ba9462ac87},{394,0x2c3e72d179606},{394,0x32fa69a69bd6d},{394,0x357f901138a94},{394,0x39aaf4725ec4e},{394,0x3eb537ab3efc6},{394,0x4ea5452428b70},{394,0x54954893ec55a},{394,0x54a63bd048270},{394,0x562edc1fad33e},{394,0x579e8612566c8},{394,0x6708547567644},{394,0x674acd87a9101},{394,0x710b7a2ef18b7},{394,0x816c01911454b},{394,0x83a2e88d86e5d},{394,0x899c454225b95},{394,0x8ded26f191fe3},{394,0x91cc88f3371df},{394,0x94eaa69cf35b4},{394,0xb1270449d6add},{394,0xc320e079a6a38},{394,0xcac8a0c4a124a},{394,0xcff8d77725a23},{394,0xd50e9e6ef31c9},{394,0xdb558476f967c},{394,0xdd7a3b54004f5},{394,0xe6737c422e04d},{394,0xec330537db848},{394,0xef6cde8fb5ca4},{394,0xf03b54e5ac5bb},{394,0xf84bf4414e0a1},
{395,0xf2abb60d8dd},{395,0x50acd8e96402},{395,0x922ef671ef27},{395,0x1f8e4be5b2f1f},{395,0x28eebc9a3da59},{395,0x29c19b9e77196},{395,0x2a8ba9462ac87},{395,0x32fa69a69bd6d},{395,0x39aaf4725ec4e},{395,0x3a11ca3ccfa3d},{395,0x4ea5452428b70},{395,0x556035d6caff2},{395,0x6708547567644},{395,0x674acd87a9101},{395,0x710b7a2ef18b7},{395,0x76713e0c0ede7},{395,0x7b8389cb0d428},{395,0x816c01911454b},{395,0x880e2cb831364},{395,0x899c454225b95},{395,0x8d637f15eb921},{395,0x94eaa69cf35b4},{395,0xc2ee1f199f79b},{395,0xc40ca9ef7eae3},{395,0xcff8d77725a23},{395,0xd51abca976993},{395,0xdb558476f967c},{395,0xdd7a3b54004f5},{395,0xe07bc3988a8b3},{395,0xe42265dc39d62},{395,0xe6737c422e04d},{395,0xf03b54e5ac5bb},{395,0xf84bf4414e0a1},
{396,0x2388c7c02609},{396,0x50acd8e96402},{396,0x65947845b9ad},{396,0x922ef671ef27},{396,0x132c154868157},{396,0x1f8e4be5b2f1f},{396,0x29c19b9e77196},{396,0x2a8ba9462ac87},{396,0x32fa69a69bd6d},{396,0x39aaf4725ec4e},{396,0x47ece84905fc6},{396,0x556035d6caff2},{396,0x59dcd64de1d9e},{396,0x5ec6de64b4efc},{396,0x6708547567644},{396,0x710b7a2ef18b7},{396,0x7b8389cb0d428},{396,0x858423699d070},{396,0x899c454225b95},{396,0x916bcec3bc694},{396,0x93cc212af2c62},{396,0x99fccca448829},{396,0xa213b2acfe120},{396,0xa260d7c5d25e0},{396,0xa3261547d7339},{396,0xa4e3c308e9ea5},{396,0xbc9731041ac3e},{396,0xc40ca9ef7eae3},{396,0xcff8d77725a23},{396,0xd51abca976993},{396,0xd64fadf0ca4f2},{396,0xdb3beb1874e1f},{396,0xde996371c6060},{396,0xe07bc3988a8b3},{396,0xfdd6a6b76e72e},
{397,0x2388c7c02609},{397,0x50acd8e96402},{397,0x65947845b9ad},{397,0x716de7ada994},{397,0x1153331830571},{397,0x132c154868157},{397,0x1d270cc51055e},{397,0x29c19b9e77196},{397,0x2a8ba9462ac87},{397,0x32fa69a69bd6d},{397,0x357d54e9b3632},{397,0x39aaf4725ec4e},{397,0x40cbee5db260a},{397,0x436db3fa6f942},{397,0x54410db905487},{397,0x5ec6de64b4efc},{397,0x6470cff6546b6},{397,0x6918b1f994016},{397,0x7b8389cb0d428},{397,0x858423699d070},{397,0x87903455e1603},{397,0x899c454225b95},{397,0x93cc212af2c62},{397,0x99fccca448829},{397,0xa260d7c5d25e0},{397,0xa3f559c85ea67},{397,0xa4e3c308e9ea5},{397,0xac5ed29b7ebf8},{397,0xbac71a4ffb1fb},{397,0xc40ca9ef7eae3},{397,0xcbd81c6ecc67f},{397,0xcff8d77725a23},{397,0xdb3beb1874e1f},{397,0xde996371c6060},{397,0xe07bc3988a8b3},{397,0xe0d7b3ad51736},{397,0xf3045658dc965},{397,0xf9b513bb09b70},{397,0xfdd6a6b76e72e},
{398,0x1305db9ec120},{398,0x50acd8e96402},{398,0x716de7ada994},{398,0x10c39f094d7bb},{398,0x1680134e0851f},{398,0x29c19b9e77196},{398,0x2a8ba9462ac87},{398,0x32fa69a69bd6d},{398,0x33a17e7eef18c},{398,0x3d3b71680892c},{398,0x40cbee5db260a},{398,0x42544d0f0312c},{398,0x464d80f23bd02},{398,0x54410db905487},{398,0x5ec6de64b4efc},{398,0x5f789ee2be6b5},{398,0x681083377db2d},{398,0x6918b1f994016},{398,0x72a961cb12f41},{398,0x7b8389cb0d428},{398,0x858423699d070},{398,0x85e6816d3ed92},{398,0x87903455e1603},{398,0x8fc07806f2c4d},{398,0x932268221e745},{398,0x93cc212af2c62},{398,0x99fccca448829},{398,0xac5ed29b7ebf8},{398,0xb09e02f21c207},{398,0xbd31c441bef1a},{398,0xc8d163f1309c8},{398,0xc8d2e7b986f03},{398,0xcbd81c6ecc67f},{398,0xcef0a8b50f53a},{398,0xdb3beb1874e1f},{398,0xe07bc3988a8b3},{398,0xe2de4640400cb},{398,0xf54cef8c75605},
{399,0x1305db9ec120},{399,0x50acd8e96402},{399,0x716de7ada994},{399,0x10ab1b193aac7},{399,0x10c39f094d7bb},{399,0x1680134e0851f},{399,0x29c19b9e77196},{399,0x32fa69a69bd6d},{399,0x3d3b71680892c},{399,0x3f03afe2dd79b},{399,0x40cbee5db260a},{399,0x44443d0196049},{399,0x464d80f23bd02},{399,0x4e9a85889ede4},{399,0x5ec6de64b4efc},{399,0x6918b1f994016},{399,0x71cc364c5bfba},{399,0x72a961cb12f41},{399,0x79497fc7d3daf},{399,0x7b8389cb0d428},{399,0x858423699d070},{399,0x87903455e1603},{399,0x93cc212af2c62},{399,0x99fccca448829},{399,0x9c04ad5751aa8},{399,0x9d5a44fd99a6a},{399,0xbf310030260ac},{399,0xc4bac5e0fe3de},{399,0xc8d2e7b986f03},{399,0xcd18594aafa55},{399,0xd10106393bf0c},{399,0xdb3beb1874e1f},{399,0xe07bc3988a8b3},{399,0xea7a49e17be4d},{399,0xef78bf1db3f93},
{400,0x1305db9ec120},{400,0x265c82d25747},{400,0x716de7ada994},{400,0xb549bf8bf508},{400,0x1153331830571},{400,0x1680134e0851f},{400,0x26b22fb68b34b},{400,0x3282566129621},{400,0x32fa69a69bd6d},{400,0x352487d9c009b},{400,0x37e2b5f789ddf},{400,0x3c112c54e6126},{400,0x40cbee5db260a},{400,0x44443d0196049},{400,0x464d80f23bd02},{400,0x4e9a85889ede4},{400,0x5ec6de64b4efc},{400,0x6470cff6546b6},{400,0x65e8d22dec6b9},{400,0x6918b1f994016},{400,0x71cc364c5bfba},{400,0x79497fc7d3daf},{400,0x858423699d070},{400,0x99fccca448829},{400,0x9d5a44fd99a6a},{400,0xae1b17af04942},{400,0xb57aab06307f1},{400,0xbf310030260ac},{400,0xc4bac5e0fe3de},{400,0xc6af32a45cdf2},{400,0xdb3beb1874e1f},{400,0xdc2fbeed89e53},{400,0xe132a46b9282d},
{401,0x1305db9ec120},{401,0xc72edbd96e33},{401,0x1153331830571},{401,0x1680134e0851f},{401,0x16e48718b2e70},{401,0x19d756f76365b},{401,0x26b22fb68b34b},{401,0x3282566129621},{401,0x32fa69a69bd6d},{401,0x352487d9c009b},{401,0x367fd85463827},{401,0x37e2b5f789ddf},{401,0x3c112c54e6126},{401,0x40cbee5db260a},{401,0x464d80f23bd02},{401,0x4997a00a9640a},{401,0x4e9a85889ede4},{401,0x561b2990141de},{401,0x5ec6de64b4efc},{401,0x71cc364c5bfba},{401,0x9d5a44fd99a6a},{401,0xa745f6f4843f8},{401,0xae45a296dfd8b},{401,0xaf5bc942a3604},{401,0xc4bac5e0fe3de},{401,0xdc2fbeed89e53},{401,0xe132a46b9282d},{401,0xfa48548cb8374},
{402,0x1305db9ec120},{402,0x76c5af55e2bd},{402,0x165b9e90c4a57},{402,0x1680134e0851f},{402,0x1c0732205edd7},{402,0x26b22fb68b34b},{402,0x30de3ff3e390a},{402,0x367fd85463827},{402,0x37e2b5f789ddf},{402,0x464d80f23bd02},{402,0x48c170ff3aac5},{402,0x4b60e157027bd},{402,0x4e9a85889ede4},{402,0x517028f340f00},{402,0x5ec6de64b4efc},{402,0x65e382ba21670},{402,0x71cc364c5bfba},{402,0x7408f2a91b501},{402,0x75b67acbc4b95},{402,0x7b038af276a57},{402,0x7bd95bdccd6a6},{402,0x8ec5971ed718f},{402,0x921cb2dd34645},{402,0x9d5a44fd99a6a},{402,0xa745f6f4843f8},{402,0xac879978b6938},{402,0xafc6b983b21e0},{402,0xc4bac5e0fe3de},{402,0xd1bfc47e9543a},{402,0xdc2c11a359cb7},{402,0xdc2fbeed89e53},{402,0xe132a46b9282d},{402,0xe18d6d1c6d916},{402,0xe6797d38da244},{402,0xf1f318fbf8a0f},{402,0xfe601457dce4d},
{403,0x9efa4597a878},{403,0x117d2dcfffb45},{403,0x165b9e90c4a57},{403,0x17cada7c62491},{403,0x22b8d004e9a79},{403,0x26b22fb68b34b},{403,0x30de3ff3e390a},{403,0x37e2b5f789ddf},{403,0x3ddded52eb419},{403,0x4b60e157027bd},{403,0x4e29c2f6ef24a},{403,0x4e9a85889ede4},{403,0x517028f340f00},{403,0x5ec6de64b4efc},{403,0x61f50f7c4b915},{403,0x624f849f2ee33},{403,0x65e382ba21670},{403,0x7408f2a91b501},{403,0x75b67acbc4b95},{403,0x7bd95bdccd6a6},{403,0x85a73beeb5c1a},{403,0x8b15776a1f96f},{403,0x9204f81597a85},{403,0x92892207340cc},{403,0x9d5a44fd99a6a},{403,0xa745f6f4843f8},{403,0xac879978b6938},{403,0xbd8d03f3e9863},{403,0xc4bac5e0fe3de},{403,0xc70a3adbd57eb},{403,0xdc2c11a359cb7},{403,0xdc2fbeed89e53},{403,0xe132a46b9282d},{403,0xe18d6d1c6d916},{403,0xe6797d38da244},{403,0xef8a48e136984},{403,0xf8961998b5e80},{403,0xfe601457dce4d},
{404,0x9efa4597a878},{404,0x165b9e90c4a57},{404,0x1678227871f3e},{404,0x26b22fb68b34b},{404,0x2e00e55c7799a},{404,0x30de3ff3e390a},{404,0x3ddded52eb419},{404,0x4b60e157027bd},{404,0x5c9da8dedfa0c},{404,0x61f50f7c4b915},{404,0x624f849f2ee33},{404,0x62b87df3b1d58},{404,0x65e382ba21670},{404,0x6f48ece83f9ff},{404,0x72370d29b558b},{404,0x7a361bbe31a3c},{404,0x85a73beeb5c1a},{404,0x85db63756c557},{404,0x8b15776a1f96f},{404,0x95e9399c1f890},{404,0x9d5a44fd99a6a},{404,0xa745f6f4843f8},{404,0xa7e81ea58eea7},{404,0xa83dc8a9e9116},{404,0xaba1f3f419255},{404,0xac879978b6938},{404,0xc1e9e11b39e57},{404,0xc4bac5e0fe3de},{404,0xc70a3adbd57eb},{404,0xc811c68276edf},{404,0xcfee08469d13c},{404,0xe132a46b9282d},{404,0xe18d6d1c6d916},{404,0xe6797d38da244},{404,0xef8a48e136984},{404,0xf53ea47266b70},{404,0xf764dad220565},{404,0xfe601457dce4d},
{405,0x9efa4597a878},{405,0xd995dc9a61c2},{405,0x165b9e90c4a57},{405,0x1678227871f3e},{405,0x265e94b278efc},{405,0x26b22fb68b34b},{405,0x30de3ff3e390a},{405,0x3ddded52eb419},{405,0x4096ce3dff1c4},{405,0x4a68ed802c22a},{405,0x4b56af9fb486d},{405,0x4b60e157027bd},{405,0x61f50f7c4b915},{405,0x62b87df3b1d58},{405,0x65e382ba21670},{405,0x692a11d5522d0},{405,0x72370d29b558b},{405,0x85db63756c557},{405,0x9d5a44fd99a6a},{405,0x9f158afda6991},{405,0xa745f6f4843f8},{405,0xa83dc8a9e9116},{405,0xac879978b6938},{405,0xb057cc7b85e40},{405,0xb3f3ce1763f6b},{405,0xc4bac5e0fe3de},{405,0xc811c68276edf},{405,0xcfee08469d13c},{405,0xe18d6d1c6d916},{405,0xe6797d38da244},{405,0xf764dad220565},{405,0xfdd18ddbc7786},{405,0xfe601457dce4d},
{406,0x9efa4597a878},{406,0xd7cea01a40ae},{406,0xff650e1332bf},{406,0x165b9e90c4a57},{406,0x1678227871f3e},{406,0x30de3ff3e390a},{406,0x3ddded52eb419},{406,0x473eac4084c31},{406,0x4b56af9fb486d},{406,0x4b60e157027bd},{406,0x5916b681b1cc7},{406,0x61f50f7c4b915},{406,0x62b87df3b1d58},{406,0x65e382ba21670},{406,0x692a11d5522d0},{406,0x6e42d02eb0438},{406,0x6ef8899dcc617},{406,0x8af46ec9d7c40},{406,0x93c7cb950ba1a},{406,0x9871355c83237},{406,0x9aa1641285cbf},{406,0x9d5a44fd99a6a},{406,0xa1b433b4aaedd},{406,0xa745f6f4843f8},{406,0xa83dc8a9e9116},{406,0xb3f3ce1763f6b},{406,0xb4ce379e76dbd},{406,0xc811c68276edf},{406,0xcfee08469d13c},{406,0xd75bf069b1647},{406,0xe18d6d1c6d916},{406,0xe6797d38da244},{406,0xea615f16c70f7},{406,0xf335e1ee99b50},{406,0xf764dad220565},{406,0xfdd18ddbc7786},{406,0xfe601457dce4d},
{407,0xd7cea01a40ae},{407,0x12b21c230432a},{407,0x165b9e90c4a57},{407,0x1678227871f3e},{407,0x27ff8b64c2f61},{407,0x38f5b02ebf5ea},{407,0x3b61b7cf7c249},{407,0x473eac4084c31},{407,0x4b60e157027bd},{407,0x551ff706becac},{407,0x58a981be2859e},{407,0x5916b681b1cc7},{407,0x61f50f7c4b915},{407,0x62b87df3b1d58},{407,0x692a11d5522d0},{407,0x6e42d02eb0438},{407,0x6ef8899dcc617},{407,0x8af46ec9d7c40},{407,0xa1b433b4aaedd},{407,0xa2cf604c30d3f},{407,0xa83dc8a9e9116},{407,0xb3c513169788f},{407,0xb3f3ce1763f6b},{407,0xbe6fff1076e4e},{407,0xc811c68276edf},{407,0xc9031f7253112},{407,0xcfee08469d13c},{407,0xda180c9b2348d},{407,0xdcf32d64f0296},{407,0xe18d6d1c6d916},{407,0xe7523c52c76ad},{407,0xea615f16c70f7},{407,0xf764dad220565},{407,0xfe601457dce4d},
{408,0x4054bb4f2155},{408,0xd7cea01a40ae},{408,0xf7c31f31dfc6},{408,0x1678227871f3e},{408,0x4b60e157027bd},{408,0x5245e4d26728d},{408,0x542c78ae70eb0},{408,0x54c7186fd9d32},{408,0x5916b681b1cc7},{408,0x62b87df3b1d58},{408,0x692a11d5522d0},{408,0x7473e14de5363},{408,0x8af46ec9d7c40},{408,0x92bc76f912e25},{408,0x9adc075b3dcb2},{408,0xa2cf604c30d3f},{408,0xa3b1d069fa2f5},{408,0xa83dc8a9e9116},{408,0xb3f3ce1763f6b},{408,0xc4833803b92c5},{408,0xc811c68276edf},{408,0xcaa94019828d2},{408,0xcd19449d3babc},{408,0xcfee08469d13c},{408,0xd097ba5206dc6},{408,0xda180c9b2348d},{408,0xdcf32d64f0296},{408,0xe18d6d1c6d916},{408,0xec4bbf9ed96c9},{408,0xf0d7a82887d4c},{408,0xf764dad220565},{408,0xfe601457dce4d},
{409,0x4054bb4f2155},{409,0x510a050ead4a},{409,0xbede60b59aa9},{409,0xd7cea01a40ae},{409,0xf7c31f31dfc6},{409,0x1678227871f3e},{409,0x21864db04ef8c},{409,0x27b31685fa489},{409,0x30d4b1580a7af},{409,0x337b4ac59b7c2},{409,0x35ac97a0d0c1a},{409,0x4b60e157027bd},{409,0x542c78ae70eb0},{409,0x5916b681b1cc7},{409,0x5bdcfd4e8386e},{409,0x62b87df3b1d58},{409,0x640e53009e06d},{409,0x692a11d5522d0},{409,0x6f0eac280aaf1},{409,0x8af46ec9d7c40},{409,0x92bc76f912e25},{409,0x92e1632db202d},{409,0x99e9a8f76a5d1},{409,0x9adc075b3dcb2},{409,0xa2b13b10459c8},{409,0xa2cf604c30d3f},{409,0xb31bb5dc320d1},{409,0xb3f3ce1763f6b},{409,0xc4833803b92c5},{409,0xc70997c0609f6},{409,0xcd19449d3babc},{409,0xcfee08469d13c},{409,0xe18b96080aab4},{409,0xe18d6d1c6d916},{409,0xf764dad220565},{409,0xfe601457dce4d},
{410,0x510a050ead4a},{410,0xaa220ad63f48},{410,0xd7cea01a40ae},{410,0xdc46164ae644},{410,0xf7c31f31dfc6},{410,0x21864db04ef8c},{410,0x27b31685fa489},{410,0x305a7f3d99bee},{410,0x30d4b1580a7af},{410,0x35ac97a0d0c1a},{410,0x379716d476660},{410,0x386a7ab339fcf},{410,0x3989fbee7e623},{410,0x39a9d74b51ffd},{410,0x3d57f28180841},{410,0x48204c494f5ff},{410,0x4b60e157027bd},{410,0x4f4ea7b625013},{410,0x4f9802f802fae},{410,0x542c78ae70eb0},{410,0x575ea32bc53f4},{410,0x5916b681b1cc7},{410,0x5d37c6bf86957},{410,0x5f37dcc7b9a01},{410,0x6eaf1a118fd63},{410,0x6f0eac280aaf1},{410,0x77844004d75b1},{410,0x8af46ec9d7c40},{410,0xa2b13b10459c8},{410,0xa2cf604c30d3f},{410,0xb31bb5dc320d1},{410,0xb3f3ce1763f6b},{410,0xbbcf76eff59cb},{410,0xc70295925b06f},{410,0xc9d3843a5c546},{410,0xdc1b52492c73c},{410,0xf606bda05ead0},{410,0xf764dad220565},{410,0xfa2b219ef210c},
{411,0x4a4948514297},{411,0x510a050ead4a},{411,0x9565b4f6e3e7},{411,0x96a80dacc9c7},{411,0xaa220ad63f48},{411,0xdc46164ae644},{411,0xde86ad9c5b70},{411,0xe97b786ea335},{411,0xf7c31f31dfc6},{411,0x1d5b93f336a09},{411,0x21864db04ef8c},{411,0x22bfc0d71e0e8},{411,0x309e893a3c556},{411,0x30d4b1580a7af},{411,0x35ac97a0d0c1a},{411,0x379716d476660},{411,0x386a7ab339fcf},{411,0x3989fbee7e623},{411,0x42756ea2c06f0},{411,0x4b60e157027bd},{411,0x542c78ae70eb0},{411,0x544c540b4488a},{411,0x5d37c6bf86957},{411,0x5f37dcc7b9a01},{411,0x7d1701bbfb09a},{411,0x84d3a9c908069},{411,0x88e3f4f4fe9ab},{411,0x8931bb74aec16},{411,0x8af46ec9d7c40},{411,0xa2b13b10459c8},{411,0xa2cf604c30d3f},{411,0xb249748876752},{411,0xb31bb5dc320d1},{411,0xbbcf76eff59cb},{411,0xc0295779d7648},{411,0xc92da18b61795},{411,0xce6e2e579bd6a},{411,0xdc1b52492c73c},{411,0xdda27a1214a5b},{411,0xef8be2ca921eb},{411,0xf764dad220565},
{412,0x4a4948514297},{412,0x510a050ead4a},{412,0x9565b4f6e3e7},{412,0xaa220ad63f48},{412,0xe97b786ea335},{412,0xf7c31f31dfc6},{412,0x21864db04ef8c},{412,0x22bfc0d71e0e8},{412,0x2d59c33a5b925},{412,0x30d4b1580a7af},{412,0x35ac97a0d0c1a},{412,0x42756ea2c06f0},{412,0x4b60e157027bd},{412,0x542c78ae70eb0},{412,0x5612ddcdcf893},{412,0x56b8c07cca644},{412,0x5f37dcc7b9a01},{412,0x69e7e11c62b6f},{412,0x6ef530255ce98},{412,0x7d1701bbfb09a},{412,0x80cc0e1f4dbb2},{412,0x8931bb74aec16},{412,0x8af46ec9d7c40},{412,0xa2b13b10459c8},{412,0xa2cf604c30d3f},{412,0xafd80208890cd},{412,0xb249748876752},{412,0xb31bb5dc320d1},{412,0xc2ad999e8f800},{412,0xc8dd188d9af42},{412,0xc92da18b61795},{412,0xd214fbd9a9547},{412,0xdc1b52492c73c},{412,0xdda27a1214a5b},{412,0xe44ca7fb46f3b},{412,0xe80e2510c0d17},{412,0xea60bbfb52302},{412,0xef8be2ca921eb},{412,0xf279d00f6cfd3},
{413,0x2db8079a1b02},{413,0x510a050ead4a},{413,0xaa220ad63f48},{413,0xe97b786ea335},{413,0x1dd1414cfc473},{413,0x22bfc0d71e0e8},{413,0x255aab96c9197},{413,0x2d2b6bd5ca3a4},{413,0x35ac97a0d0c1a},{413,0x36e7ca2751e9b},{413,0x3f38b10c3d72f},{413,0x42756ea2c06f0},{413,0x4654c8652589d},{413,0x4b60e157027bd},{413,0x542c78ae70eb0},{413,0x5612ddcdcf893},{413,0x5f37dcc7b9a01},{413,0x66f6dc6f42e46},{413,0x69e7e11c62b6f},{413,0x7c711f0d002e9},{413,0x9ab2236cb323a},{413,0x9b4ec5ef2ee4a},{413,0x9f1c781a0b9f3},{413,0xa2cf604c30d3f},{413,0xa94a3b21fd624},{413,0xb31bb5dc320d1},{413,0xb9c93bb80078c},{413,0xc92da18b61795},{413,0xd214fbd9a9547},{413,0xe44ca7fb46f3b},{413,0xe80e2510c0d17},{413,0xea60bbfb52302},{413,0xef8be2ca921eb},
{414,0x2db8079a1b02},{414,0xaa220ad63f48},{414,0xe97b786ea335},{414,0x1439b0fd301de},{414,0x22bfc0d71e0e8},{414,0x255aab96c9197},{414,0x27f5965674246},{414,0x35ac97a0d0c1a},{414,0x3603be6016dc8},{414,0x36e7ca2751e9b},{414,0x3f38b10c3d72f},{414,0x4b0fd37785c4e},{414,0x542c78ae70eb0},{414,0x5612ddcdcf893},{414,0x66f6dc6f42e46},{414,0x69e7e11c62b6f},{414,0x7cb83f20abcb7},{414,0x8fa03fac98814},{414,0x91c2ac83c2335},{414,0x966b154f094f9},{414,0x9ab2236cb323a},{414,0x9eb1af3e7c601},{414,0xa2cf604c30d3f},{414,0xb31bb5dc320d1},{414,0xb5fe80ebc926a},{414,0xb9c93bb80078c},{414,0xc92da18b61795},{414,0xd214fbd9a9547},{414,0xd336cf136879f},{414,0xdc5cc22af9cc0},{414,0xe80e2510c0d17},{414,0xea60bbfb52302},{414,0xef8be2ca921eb},
{415,0x2db8079a1b02},{415,0x8849eb7a2c49},{415,0xe97b786ea335},{415,0x1439b0fd301de},{415,0x1c440c0d3938e},{415,0x1cf054a6bd052},{415,0x22bfc0d71e0e8},{415,0x255aab96c9197},{415,0x3603be6016dc8},{415,0x36e7ca2751e9b},{415,0x3ac547ec0d079},{415,0x3f10c90cc96a6},{415,0x3f38b10c3d72f},{415,0x4e7d4d67ace07},{415,0x542c78ae70eb0},{415,0x5612ddcdcf893},{415,0x62062d6aa2bcc},{415,0x687daec7ffd32},{415,0x69e7e11c62b6f},{415,0x70e5fb5305e5b},{415,0x8d7fa29ac742c},{415,0x966b154f094f9},{415,0x97e9fa7e6eec4},{415,0x9ab2236cb323a},{415,0x9f5688034b5c6},{415,0xac66f09bfcfd5},{415,0xb31bb5dc320d1},{415,0xb5fe80ebc926a},{415,0xbf96113b95500},{415,0xc92da18b61795},{415,0xd214fbd9a9547},{415,0xd2c531db2da2b},{415,0xdc5cc22af9cc0},{415,0xe5f4527ac5f56},{415,0xe80e2510c0d17},{415,0xea60bbfb52302},{415,0xeaa90fd06bdc6},{415,0xed43fa9016e75},{415,0xf404b99afac5e},
{416,0x2db8079a1b02},{416,0xa2dc7a8bb503},{416,0xff151a99f482},{416,0xff151a99f483},{416,0x1d8a2f5880d89},{416,0x22bfc0d71e0e8},{416,0x255aab96c9197},{416,0x261d0c3ed2ba8},{416,0x3ac547ec0d079},{416,0x4e7d4d67ace07},{416,0x5612ddcdcf893},{416,0x687daec7ffd32},{416,0x69d1d7c9bf0f8},{416,0x6d4ccd48a60c8},{416,0x8608af5ccc57f},{416,0x866d21e2db2e0},{416,0x86b46853c4f57},{416,0x966b154f094f9},{416,0x97e9fa7e6eec4},{416,0x9ab2236cb323a},{416,0x9f5688034b5c6},{416,0xb1bf9fb11b7ea},{416,0xb5fe80ebc926a},{416,0xb929a396ba0c9},{416,0xbb07aa3f84938},{416,0xbf96113b95500},{416,0xc30452d4538fa},{416,0xc92da18b61795},{416,0xd214fbd9a9547},{416,0xd2c531db2da2b},{416,0xe03d64d1bfb0a},{416,0xe5f4527ac5f56},{416,0xe80e2510c0d17},{416,0xea60bbfb52302},{416,0xed43fa9016e75},
{417,0x109f5cbf2a8f6},{417,0x1d8a2f5880d89},{417,0x22bfc0d71e0e8},{417,0x22effacc5fc96},{417,0x255aab96c9197},{417,0x28f851d704fd4},{417,0x2fb2e1a4beba1},{417,0x4e7d4d67ace07},{417,0x4fb08cecaffc0},{417,0x53eda614071a3},{417,0x560789f547077},{417,0x59481d3c7c255},{417,0x60bca2fb8b7bc},{417,0x687daec7ffd32},{417,0x825bb43d742ca},{417,0x8608af5ccc57f},{417,0x866d21e2db2e0},{417,0x86b46853c4f57},{417,0x966b154f094f9},{417,0x97e9fa7e6eec4},{417,0xb5fe80ebc926a},{417,0xb929a396ba0c9},{417,0xbb07aa3f84938},{417,0xbf96113b95500},{417,0xc584d18c8ec3b},{417,0xc92da18b61795},{417,0xd214fbd9a9547},{417,0xe2b2bdc047868},{417,0xe5f4527ac5f56},{417,0xe78868a9f57ee},{417,0xea60bbfb52302},{417,0xed43fa9016e75},{417,0xef9d90599dcfb},{417,0xf7b32c135e36d},{417,0xfa4a904e6e1e0},{417,0xfd2348f953e51},
{418,0x935a35e87925},{418,0xd043c678a227},{418,0x109f5cbf2a8f6},{418,0x192f73ff299df},{418,0x22bfc0d71e0e8},{418,0x255aab96c9197},{418,0x28f851d704fd4},{418,0x3c816c4d17a95},{418,0x3db11ac608107},{418,0x4189c70d42d3b},{418,0x4fb8a43e9e44c},{418,0x58a274b4f2126},{418,0x59481d3c7c255},{418,0x63e0ad8ed21ff},{418,0x6c773ddc14780},{418,0x7808b6df05fb2},{418,0x8e852892c6164},{418,0x8e86ebd513a82},{418,0x913adf63eecf5},{418,0x966b154f094f9},{418,0x97e9fa7e6eec4},{418,0xb5fe80ebc926a},{418,0xb76146b242e37},{418,0xc92da18b61795},{418,0xcbcce6b31c0c1},{418,0xd214fbd9a9547},{418,0xe2c7410853044},{418,0xe5f4527ac5f56},{418,0xe78868a9f57ee},{418,0xe92163ed38e67},{418,0xef9d90599dcfb},{418,0xfa4a904e6e1e0},{418,0xfdc8c7df2df49},{418,0xfde4791e0aa75},
{419,0xd904cfeaa6f},{419,0x935a35e87925},{419,0xd043c678a227},{419,0x17bdcac53d520},{419,0x192f73ff299df},{419,0x22bfc0d71e0e8},{419,0x255aab96c9197},{419,0x3185e32e6894f},{419,0x3db11ac608107},{419,0x42ee90f96d25b},{419,0x48bb004f82683},{419,0x58a274b4f2126},{419,0x63e0ad8ed21ff},{419,0x6704b82218c42},{419,0x6bfa6e2e2611a},{419,0x6c773ddc14780},{419,0x7808b6df05fb2},{419,0x8e852892c6164},{419,0x8e86ebd513a82},{419,0x913adf63eecf5},{419,0x966b154f094f9},{419,0x97e9fa7e6eec4},{419,0xb5fe80ebc926a},{419,0xb76146b242e37},{419,0xc467dc709a1a2},{419,0xc8a8dc1fd567e},{419,0xd214fbd9a9547},{419,0xe2c7410853044},{419,0xe527029f1ace5},{419,0xe78868a9f57ee},{419,0xe92163ed38e67},{419,0xef9d90599dcfb},{419,0xfdc8c7df2df49},
{420,0xd904cfeaa6f},{420,0x55bfa0150265},{420,0x7ce66e8340c9},{420,0x1319d83359e03},{420,0x1604d4ba2c14b},{420,0x17bdcac53d520},{420,0x192f73ff299df},{420,0x1c3a41e5117cd},{420,0x1f450fcaf95bb},{420,0x22bfc0d71e0e8},{420,0x255aab96c9197},{420,0x314f3c45f531e},{420,0x3db11ac608107},{420,0x42ee90f96d25b},{420,0x48bb004f82683},{420,0x53eda614071a3},{420,0x58a274b4f2126},{420,0x63e0ad8ed21ff},{420,0x661d1af72e95d},{420,0x6704b82218c42},{420,0x6bfa6e2e2611a},{420,0x6c773ddc14780},{420,0x7393cea3dc145},{420,0x76c55e24291c4},{420,0x7a8930bc2579f},{420,0x89778ef49f42d},{420,0x8b7c1def2bc94},{420,0x913adf63eecf5},{420,0x966b154f094f9},{420,0xa341e417582e6},{420,0xa39cb027dbfb0},{420,0xa8e90f9908e0c},{420,0xaacc50e4a6af4},{420,0xc467dc709a1a2},{420,0xe2c7410853044},{420,0xe5f4527ac5f56},{420,0xf564ee90bdad1},{420,0xfc9ef8b1fa5df},{420,0xfdc8c7df2df49},{420,0xfde4791e0aa75},
{421,0xd904cfeaa6f},{421,0xba8a94ae968c},{421,0x1604d4ba2c14b},{421,0x1624a61941bf1},{421,0x178187fd3e00f},{421,0x17bdcac53d520},{421,0x192f73ff299df},{421,0x1ab4daf21d8d6},{421,0x1b6a4cb52d9a0},{421,0x1c3a41e5117cd},{421,0x1f450fcaf95bb},{421,0x22bfc0d71e0e8},{421,0x2697be0633bff},{421,0x3db11ac608107},{421,0x3eaecbb2c6a89},{421,0x4b4b6cb29f7ad},{421,0x4ee33d1104d4f},{421,0x58a274b4f2126},{421,0x5c1d25c116c53},{421,0x63e0ad8ed21ff},{421,0x661d1af72e95d},{421,0x6704b82218c42},{421,0x6bfa6e2e2611a},{421,0x6c773ddc14780},{421,0x8d0184e21fb8b},{421,0x913adf63eecf5},{421,0x94b2bf8db071d},{421,0x9c29bfc515696},{421,0xa341e417582e6},{421,0xa8e90f9908e0c},{421,0xb03fd320663ef},{421,0xc1f007a2200e9},{421,0xc260c6f9481f8},{421,0xc467dc709a1a2},{421,0xc86051afb6525},{421,0xd69e359977ed0},{421,0xd72a52153e23d},{421,0xe2c7410853044},{421,0xe4d2a0639ac51},{421,0xe5f4527ac5f56},{421,0xfdc8c7df2df49},{421,0xfde4791e0aa75},
{422,0xd904cfeaa6f},{422,0xba8a94ae968c},{422,0x100f0a4d72015},{422,0x1604d4ba2c14b},{422,0x178187fd3e00f},{422,0x192f73ff299df},{422,0x1ab4daf21d8d6},{422,0x1c3a41e5117cd},{422,0x1dbfa8d8056c4},{422,0x1f450fcaf95bb},{422,0x2e7b154880b61},{422,0x37a95f2adb141},{422,0x3956b0b681167},{422,0x3db11ac608107},{422,0x3eaecbb2c6a89},{422,0x40ceae5619e72},{422,0x4ee33d1104d4f},{422,0x5dad3d768ca68},{422,0x63e0ad8ed21ff},{422,0x6704b82218c42},{422,0x6bfa6e2e2611a},{422,0x6c773ddc14780},{422,0x8a1040579c2f7},{422,0x94b2bf8db071d},{422,0x9c29bfc515696},{422,0xb43298bc96799},{422,0xb453853bff828},{422,0xb589c083feccd},{422,0xc260c6f9481f8},{422,0xc467dc709a1a2},{422,0xc5652660a6d6a},{422,0xcb8d632229436},{422,0xcf37cd6e91723},{422,0xd5cd51ad51983},{422,0xd72a52153e23d},{422,0xe2c7410853044},{422,0xf00ece64dfcd3},{422,0xf784d13410eba},{422,0xfa220b6de5ce1},{422,0xfdc8c7df2df49},{422,0xfde4791e0aa75},
{423,0x100f0a4d72015},{423,0x108e2a08729dc},{423,0x1604d4ba2c14b},{423,0x178187fd3e00f},{423,0x17aa0d0c35ae8},{423,0x1ab4daf21d8d6},{423,0x1c3a41e5117cd},{423,0x1f450fcaf95bb},{423,0x26e01289bd08e},{423,0x2853b359f7d09},{423,0x2a995161a308b},{423,0x37a95f2adb141},{423,0x3db11ac608107},{423,0x3eaecbb2c6a89},{423,0x4ee33d1104d4f},{423,0x50c8e42a6d183},{423,0x5ba8934efd8a0},{423,0x5dad3d768ca68},{423,0x63e0ad8ed21ff},{423,0x6704b82218c42},{423,0x89bf3639acd45},{423,0x94b2bf8db071d},{423,0x98d53f0cabeca},{423,0x9bdbb3996c277},{423,0x9e49a26868a7f},{423,0xa1d0c7f8a94df},{423,0xa8e90f9908e0c},{423,0xb453853bff828},{423,0xbadbf7be67964},{423,0xc260c6f9481f8},{423,0xc5652660a6d6a},{423,0xd72a52153e23d},{423,0xdc0ed3e3dac4e},{423,0xe17f722e3d9cc},{423,0xf3450bed6a6e8},
{424,0x641ee18e97ce},{424,0xabfb28ee82d8},{424,0x17aa0d0c35ae8},{424,0x1ab4daf21d8d6},{424,0x1f450fcaf95bb},{424,0x2853b359f7d09},{424,0x2a995161a308b},{424,0x34253613d58c9},{424,0x37a95f2adb141},{424,0x3db11ac608107},{424,0x3eaecbb2c6a89},{424,0x473cff783a945},{424,0x4ee33d1104d4f},{424,0x50c8e42a6d183},{424,0x569937a6f196a},{424,0x5dad3d768ca68},{424,0x63b8287fda726},{424,0x6704b82218c42},{424,0x6e7c370d97a84},{424,0x7fbf02b79afa3},{424,0x8b89d8ba439fd},{424,0x9306c793217c6},{424,0x94b2bf8db071d},{424,0x9bdbb3996c277},{424,0xa870a227e94ff},{424,0xa8e90f9908e0c},{424,0xbadbf7be67964},{424,0xc260c6f9481f8},{424,0xc5652660a6d6a},{424,0xd72a52153e23d},{424,0xdc0ed3e3dac4e},{424,0xe17f722e3d9cc},{424,0xee642ffb67e4b},
{425,0x165ca181fd0df},{425,0x17aa0d0c35ae8},{425,0x1f450fcaf95bb},{425,0x3137ec2e1a4c1},{425,0x34253613d58c9},{425,0x37a95f2adb141},{425,0x38eb286ceece8},{425,0x3ceb2abc5ef14},{425,0x3db11ac608107},{425,0x3eaecbb2c6a89},{425,0x42770d1f21526},{425,0x473cff783a945},{425,0x5e60e2742ef5f},{425,0x625572067d666},{425,0x6e7c370d97a84},{425,0x70f502521328b},{425,0x8b89d8ba439fd},{425,0x9306c793217c6},{425,0x94b2bf8db071d},{425,0x992364743abb8},{425,0xa565d44201711},{425,0xab74aa666c8f0},{425,0xad00d700c51e4},{425,0xb5188cd42fd02},{425,0xc260c6f9481f8},{425,0xc377a092996ed},{425,0xd72a52153e23d},{425,0xdc0ed3e3dac4e},{425,0xe0ae0cd8520b1},{425,0xf011393c4928f},{425,0xf429ae83a9989},{425,0xf6ed008dbb8ec},{425,0xf8448ea27363f},{425,0xf93c17564c779},{425,0xfbd45f6723fa2},{425,0xfcb289a22bd42},
{426,0x991a9bfa58c7},{426,0x17aa0d0c35ae8},{426,0x1d7c967ad1f70},{426,0x1eafd0ec348f8},{426,0x353bd097b74b1},{426,0x37a95f2adb141},{426,0x38eb286ceece8},{426,0x3db11ac608107},{426,0x3eaecbb2c6a89},{426,0x42770d1f21526},{426,0x506d4c4165702},{426,0x54b1b48a8f453},{426,0x5e60e2742ef5f},{426,0x625572067d666},{426,0x81133622b00bb},{426,0x8b89d8ba439fd},{426,0x8c7cff501cdb1},{426,0x8e5a7e9f7852b},{426,0x8fae6c458c59d},{426,0x9306c793217c6},{426,0xad00d700c51e4},{426,0xb5188cd42fd02},{426,0xbd516b513c2c2},{426,0xc260c6f9481f8},{426,0xcc40edb2193c7},{426,0xcf0500eaae130},{426,0xd15bda9bb3b3a},{426,0xd72a52153e23d},{426,0xe5dbc5466cf39},{426,0xf011393c4928f},{426,0xf8448ea27363f},{426,0xf93c17564c779},{426,0xfcb289a22bd42},{426,0xff0a8ecfd6e7c},
{427,0x40ef5e805a23},{427,0x17aa0d0c35ae8},{427,0x1d7c967ad1f70},{427,0x1eafd0ec348f8},{427,0x353bd097b74b1},{427,0x37a95f2adb141},{427,0x3db11ac608107},{427,0x3eaecbb2c6a89},{427,0x45fc66c434cfa},{427,0x47d2699f23dc1},{427,0x4c49df05ae3da},{427,0x506d4c4165702},{427,0x5e60e2742ef5f},{427,0x625572067d666},{427,0x69e42ee0322fd},{427,0x74f55d97394ae},{427,0x8c7cff501cdb1},{427,0x9306c793217c6},{427,0x96c02f9d15578},{427,0xa3ad2667907f7},{427,0xad00d700c51e4},{427,0xb5188cd42fd02},{427,0xb82e3c8eef327},{427,0xc908ab317c321},{427,0xd72a52153e23d},{427,0xdb582b92c5c83},{427,0xde2913773132b},{427,0xe3be2e08826b1},{427,0xe5dbc5466cf39},{427,0xf011393c4928f},{427,0xf7ac3bfb0cd62},{427,0xfcb289a22bd42},
{428,0x3aedf1d0734a},{428,0x40ef5e805a23},{428,0x99b393b84831},{428,0x17aa0d0c35ae8},{428,0x1d7c967ad1f70},{428,0x1eafd0ec348f8},{428,0x22383aa5250bf},{428,0x31bc7e9f83635},{428,0x353bd097b74b1},{428,0x3cffbf89598a7},{428,0x3db11ac608107},{428,0x506d4c4165702},{428,0x5e60e2742ef5f},{428,0x60dc67f3ea131},{428,0x625572067d666},{428,0x69e42ee0322fd},{428,0x74f55d97394ae},{428,0x84cda52b7534e},{428,0x87ab2483a1425},{428,0x8c7cff501cdb1},{428,0x8c84a32c66ec5},{428,0x8f7e5dda30fff},{428,0x9306c793217c6},{428,0xa3ad2667907f7},{428,0xac907b4b2ebb8},{428,0xad00d700c51e4},{428,0xae07b9624ed74},{428,0xb82e3c8eef327},{428,0xcf686ebfbce47},{428,0xd5350094a5379},{428,0xd72a52153e23d},{428,0xd9af0a05eb352},{428,0xdb582b92c5c83},{428,0xe3be2e08826b1},{428,0xf011393c4928f},{428,0xfcb289a22bd42},{428,0xfcc4810f3cf40},
{429,0x99b393b84831},{429,0x16475692d8a28},{429,0x1d7c967ad1f70},{429,0x1eafd0ec348f8},{429,0x1f6b84e99de71},{429,0x22383aa5250bf},{429,0x25dd1c4e67feb},{429,0x2a53aac0aa991},{429,0x31bc7e9f83635},{429,0x353bd097b74b1},{429,0x3cffbf89598a7},{429,0x3db11ac608107},{429,0x460e34c2ab9de},{429,0x4b0c1c45d0af1},{429,0x4b5ad35814588},{429,0x506d4c4165702},{429,0x5e60e2742ef5f},{429,0x625572067d666},{429,0x651adef9377e6},{429,0x665bc52741b36},{429,0x74f55d97394ae},{429,0x87ab2483a1425},{429,0x87beb0d34daa6},{429,0x8c84a32c66ec5},{429,0x8f7e5dda30fff},{429,0x914a9585802e4},{429,0x9306c793217c6},{429,0xa1a8557422098},{429,0xa3ee546a3dc62},{429,0xad00d700c51e4},{429,0xb35457f7b791e},{429,0xb8d3f39cb28f8},{429,0xc34cdacf8d415},{429,0xd72a52153e23d},{429,0xd9af0a05eb352},{429,0xdab2bbce2ea04},{429,0xe3be2e08826b1},{429,0xf011393c4928f},
{430,0x99b393b84831},{430,0x14835f1291351},{430,0x1558efb9b9a2d},{430,0x16475692d8a28},{430,0x1f6b84e99de71},{430,0x25dd1c4e67feb},{430,0x2a53aac0aa991},{430,0x3059e188e6fdb},{430,0x353bd097b74b1},{430,0x3db11ac608107},{430,0x4023f66ec3fd1},{430,0x421eff614b7a5},{430,0x4b5ad35814588},{430,0x4bf342d01f729},{430,0x60b5757287de9},{430,0x625572067d666},{430,0x665bc52741b36},{430,0x74a6e76ee8a2a},{430,0x74f55d97394ae},{430,0x76acb3a203771},{430,0x815cb6f66f0e3},{430,0x8c84a32c66ec5},{430,0x950e2b23a852a},{430,0x96e4a899f5ed3},{430,0x9c5da8c59c691},{430,0x9ef3993b72ab8},{430,0xa3ee546a3dc62},{430,0xa4625ee9e5360},{430,0xad00d700c51e4},{430,0xcfaab7f871701},{430,0xd9af0a05eb352},{430,0xe3be2e08826b1},{430,0xe7273361f3adb},{430,0xf1f11e4756676},{430,0xf77fe52be134a},
{431,0x99b393b84831},{431,0x104676d0688b3},{431,0x17bc2ac4f640e},{431,0x227751a99d11a},{431,0x24df97d524401},{431,0x25dd1c4e67feb},{431,0x25fe40eac2448},{431,0x2a53aac0aa991},{431,0x2d0db4366dc59},{431,0x2fc7bdac30f21},{431,0x353bd097b74b1},{431,0x3db11ac608107},{431,0x3f83403a932d0},{431,0x4023f66ec3fd1},{431,0x4b5ad35814588},{431,0x60b5757287de9},{431,0x625572067d666},{431,0x665bc52741b36},{431,0x74f55d97394ae},{431,0x76acb3a203771},{431,0x81e7aaaa7c902},{431,0x8c84a32c66ec5},{431,0x96e4a899f5ed3},{431,0x9ef3993b72ab8},{431,0xa4625ee9e5360},{431,0xaceaab992f4d8},{431,0xad00d700c51e4},{431,0xb75e9a94c9c3e},{431,0xc8725bc164897},{431,0xd2af371c403d3},{431,0xd9af0a05eb352},{431,0xe387c41c87d76},{431,0xe7273361f3adb},{431,0xf17006d8ea202},{431,0xf77fe52be134a},{431,0xfe88b5ebb5323},
{432,0x99b393b84831},{432,0xcc4d3dd71468},{432,0x104676d0688b3},{432,0x17bc2ac4f640e},{432,0x24df97d524401},{432,0x25fe40eac2448},{432,0x2799a14ae76c9},{432,0x2a53aac0aa991},{432,0x2c5f31d8fcfa7},{432,0x2d0db4366dc59},{432,0x2e1cdcd043fee},{432,0x2fc7bdac30f21},{432,0x3281c721f41e9},{432,0x3dfad0a986188},{432,0x4023f66ec3fd1},{432,0x4b5ad35814588},{432,0x4d79cf40fdc7b},{432,0x4fe5cdb849617},{432,0x503ff0eabd382},{432,0x5b68550863ba1},{432,0x5c71ea82b1f36},{432,0x60b5757287de9},{432,0x61d0cac70caa7},{432,0x625572067d666},{432,0x665bc52741b36},{432,0x69371fe2782c1},{432,0x73bbc7d5cff36},{432,0x74f55d97394ae},{432,0x85a6c4e4933c6},{432,0x87a00ecfd659f},{432,0x883028f12426d},{432,0x8c84a32c66ec5},{432,0x96e4a899f5ed3},{432,0x9791c1f356855},{432,0xa4625ee9e5360},{432,0xa4f1c4a1e4c56},{432,0xb75e9a94c9c3e},{432,0xbff2b67112203},{432,0xc886d24d5a7c8},{432,0xd2405e1653297},{432,0xd2af371c403d3},{432,0xd9af0a05eb352},{432,0xecaa147fd0de3},{432,0xf17006d8ea202},{432,0xf77fe52be134a},{432,0xf82a8841d448b},{432,0xfe88b5ebb5323},
{433,0x99b393b84831},{433,0x173d688854619},{433,0x24df97d524401},{433,0x25fe40eac2448},{433,0x27c5c5ac9ea16},{433,0x2a53aac0aa991},{433,0x2bb0af7b8c2f5},{433,0x2c0fd39ac2cf8},{433,0x2c5f31d8fcfa7},{433,0x2d0db4366dc59},{433,0x2e6ab8f14f5bd},{433,0x3059e188e6fdb},{433,0x3281c721f41e9},{433,0x3736b2ec9600a},{433,0x3d0ad53d2472d},{433,0x4023f66ec3fd1},{433,0x503ff0eabd382},{433,0x5c71ea82b1f36},{433,0x60b5757287de9},{433,0x74f55d97394ae},{433,0x83e5f36b179a0},{433,0x85a6c4e4933c6},{433,0x87a00ecfd659f},{433,0x8c84a32c66ec5},{433,0x91f1123ba3341},{433,0x9ef3993b72ab8},{433,0xa4625ee9e5360},{433,0xa82f29a235ece},{433,0xac6ffeda2e13a},{433,0xbc975bd61be54},{433,0xbff2b67112203},{433,0xc886d24d5a7c8},{433,0xd2405e1653297},{433,0xd9af0a05eb352},{433,0xdd8960492ea24},{433,0xdf3db62e63a93},{433,0xeb680899ebd47},{433,0xecaa147fd0de3},{433,0xefe4169f6caba},{433,0xf77fe52be134a},{433,0xf7857005c6a8d},{433,0xfe88b5ebb5323},
{434,0x99b393b84831},{434,0x1c6a53bc1a0b0},{434,0x1e0e802ebc50d},{434,0x24df97d524401},{434,0x25fe40eac2448},{434,0x27c5c5ac9ea16},{434,0x2a3f1622ba6b4},{434,0x2b022d1e1b643},{434,0x2bb0af7b8c2f5},{434,0x2c0fd39ac2cf8},{434,0x2c5f31d8fcfa7},{434,0x2d0db4366dc59},{434,0x2dbc3693de90b},{434,0x3059e188e6fdb},{434,0x3281c721f41e9},{434,0x3952dec85c0dd},{434,0x3d0ad53d2472d},{434,0x4dc625bb93db9},{434,0x5c71ea82b1f36},{434,0x60b5757287de9},{434,0x6b15261404561},{434,0x85a6c4e4933c6},{434,0x8c84a32c66ec5},{434,0x91f1123ba3341},{434,0x9ef3993b72ab8},{434,0xa01203c514f1e},{434,0xa93f5ef033f69},{434,0xac6ffeda2e13a},{434,0xaeca7eb881679},{434,0xbc975bd61be54},{434,0xbff2b67112203},{434,0xc43cc45f364e6},{434,0xcda2341222c53},{434,0xd2d20c62e100f},{434,0xd9af0a05eb352},{434,0xdd8960492ea24},{434,0xdf3db62e63a93},{434,0xeee3360d0c6db},{434,0xf7857005c6a8d},
{435,0x99b393b84831},{435,0x12c89466a387c},{435,0x175c7521a953e},{435,0x243d13ab6e6d4},{435,0x24df97d524401},{435,0x284823a85837b},{435,0x2a3f1622ba6b4},{435,0x2bb0af7b8c2f5},{435,0x2c07f0aa4494e},{435,0x2c0fd39ac2cf8},{435,0x2c5f31d8fcfa7},{435,0x2cb67307b5600},{435,0x2d0db4366dc59},{435,0x2f193b4ec026f},{435,0x3281c721f41e9},{435,0x34a3ef770b2bd},{435,0x3c9bfc37375f1},{435,0x4dc625bb93db9},{435,0x5901681dadcc7},{435,0x5c71ea82b1f36},{435,0x60b5757287de9},{435,0x61db834cc56a4},{435,0x626612942dc2f},{435,0x6fdb9bfb9b87d},{435,0x76014505ea77e},{435,0x85a6c4e4933c6},{435,0x871b0a6253757},{435,0x87a599a9bbce2},{435,0x8c84a32c66ec5},{435,0x8d7984d3e79ea},{435,0x90f418b8a5f3e},{435,0x972bd4c25551e},{435,0xa01203c514f1e},{435,0xa93f5ef033f69},{435,0xace520bf49d95},{435,0xaeca7eb881679},{435,0xbf92bf6ace816},{435,0xbff2b67112203},{435,0xc43cc45f364e6},{435,0xc7fb0d3240cec},{435,0xd9af0a05eb352},{435,0xe08f9609b5869},{435,0xe710761db80b7},{435,0xeee3360d0c6db},{435,0xf7857005c6a8d},
{436,0x3583fc527ab3},{436,0x99b393b84831},{436,0x9bf6429a15e4},{436,0x175c7521a953e},{436,0x1aa5f45b88593},{436,0x29fc6991f2338},{436,0x2a3f1622ba6b4},{436,0x2bb0af7b8c2f5},{436,0x2c07f0aa4494e},{436,0x2c0fd39ac2cf8},{436,0x2c5f31d8fcfa7},{436,0x2cb67307b5600},{436,0x2d64f565262b2},{436,0x2f193b4ec026f},{436,0x34a3ef770b2bd},{436,0x3cbb6a9b90057},{436,0x471295bf9e337},{436,0x4dc625bb93db9},{436,0x5901681dadcc7},{436,0x5e1d894a28c0b},{436,0x60b5757287de9},{436,0x71b73717c649b},{436,0x76014505ea77e},{436,0x7828fa57e9150},{436,0x85045fa7bb80c},{436,0x867763f159408},{436,0x87a599a9bbce2},{436,0x9d1f04b290632},{436,0xa93f5ef033f69},{436,0xace520bf49d95},{436,0xb406887baae05},{436,0xbf92bf6ace816},{436,0xc43cc45f364e6},{436,0xd19a188d6f8bd},{436,0xe710761db80b7},
{437,0xa805fff8b62},{437,0x99b393b84831},{437,0x9bf6429a15e4},{437,0x15fc31275351e},{437,0x175c7521a953e},{437,0x1880f3c46fd9e},{437,0x1aa5f45b88593},{437,0x232b51eb8a444},{437,0x2a3f1622ba6b4},{437,0x2bb0af7b8c2f5},{437,0x2c0fd39ac2cf8},{437,0x2c5f31d8fcfa7},{437,0x2d64f565262b2},{437,0x34360d0b8e1a6},{437,0x3cbb6a9b90057},{437,0x4578c75f464e6},{437,0x471295bf9e337},{437,0x532d934768bac},{437,0x5901681dadcc7},{437,0x5ed0e0db97b1b},{437,0x71b73717c649b},{437,0x7828fa57e9150},{437,0x87a599a9bbce2},{437,0x899024dc3d6d8},{437,0x9c9bc26530174},{437,0xa93f5ef033f69},{437,0xb406887baae05},{437,0xbf92bf6ace816},{437,0xc2a49b1129911},{437,0xc43cc45f364e6},{437,0xc5da6f99056b9},{437,0xca53b3c50fe58},{437,0xcc563dfdf3364},{437,0xd19a188d6f8bd},{437,0xda55c3887ed82},{437,0xdbef91e8d6bd3},{437,0xe2c6682f93dd5},{437,0xe710761db80b7},{437,0xe83768aff1b76},{437,0xebddc6593c857},{437,0xee36f0f6dc831},
{438,0x6b5a40d1c45},{438,0x99b393b84831},{438,0x15fc31275351e},{438,0x175c7521a953e},{438,0x224863af9954b},{438,0x232b51eb8a444},{438,0x23c347bdcca09},{438,0x2a3f1622ba6b4},{438,0x2bb0af7b8c2f5},{438,0x2c0fd39ac2cf8},{438,0x2c5f31d8fcfa7},{438,0x34360d0b8e1a6},{438,0x471295bf9e337},{438,0x532d934768bac},{438,0x5901681dadcc7},{438,0x5ed0e0db97b1b},{438,0x6272652f97824},{438,0x649957af168b6},{438,0x66fcb18df2794},{438,0x7781e6751345c},{438,0x7828fa57e9150},{438,0x7b4aaa1056d0c},{438,0x7efca53336432},{438,0x893b3f6956115},{438,0x896bb4aba1490},{438,0x899024dc3d6d8},{438,0xa93f5ef033f69},{438,0xc054bb352d63f},{438,0xc1f618b3b8c5f},{438,0xc2a49b1129911},{438,0xc43cc45f364e6},{438,0xc8f769e14e77e},{438,0xcd8e08db132e3},{438,0xd19a188d6f8bd},{438,0xd38196476515d},{438,0xe710761db80b7},{438,0xe83768aff1b76},{438,0xebddc6593c857},{438,0xee36f0f6dc831},{438,0xf0d7e608e1864},{438,0xf547ab6528208},
{439,0x6b5a40d1c45},{439,0x1b94c2bec388},{439,0x99b393b84831},{439,0xeb9c675883ff},{439,0xf9338ffe66ff},{439,0x15fc31275351e},{439,0x175c7521a953e},{439,0x224863af9954b},{439,0x272c1ba52e122},{439,0x28a1d279eb7bc},{439,0x2a3f1622ba6b4},{439,0x2bb0af7b8c2f5},{439,0x2c5f31d8fcfa7},{439,0x34360d0b8e1a6},{439,0x52c4e019889e0},{439,0x532d934768bac},{439,0x5901681dadcc7},{439,0x5ed0e0db97b1b},{439,0x7027f276319bb},{439,0x7781e6751345c},{439,0x7828fa57e9150},{439,0x893b3f6956115},{439,0x899024dc3d6d8},{439,0x935794c766e85},{439,0x9d60396237377},{439,0xa26f973b7528f},{439,0xa93f5ef033f69},{439,0xb14066d1eb6fe},{439,0xc3aa5e9d52c1c},{439,0xc8f769e14e77e},{439,0xd19a188d6f8bd},{439,0xd38196476515d},{439,0xe710761db80b7},{439,0xebddc6593c857},{439,0xebf42e134cc8e},{439,0xee36f0f6dc831},{439,0xfc7a4dab58d0c},
{440,0x6b5a40d1c45},{440,0x1b94c2bec388},{440,0x6f978224e079},{440,0x15fc31275351e},{440,0x20418854f82bf},{440,0x224863af9954b},{440,0x28a1d279eb7bc},{440,0x2a3f1622ba6b4},{440,0x2bb0af7b8c2f5},{440,0x2c5f31d8fcfa7},{440,0x34360d0b8e1a6},{440,0x3bde3fee54740},{440,0x3e81fb1e2184a},{440,0x40d2077ff6e3a},{440,0x521c2cbe6452e},{440,0x532d934768bac},{440,0x5ed0e0db97b1b},{440,0x7029ef817be5e},{440,0x7751259bd723b},{440,0x7781e6751345c},{440,0x7828fa57e9150},{440,0x7ae4fcfb7f354},{440,0x7e188d1ee7749},{440,0x893b3f6956115},{440,0x935794c766e85},{440,0x9d3ee15a7a9e3},{440,0xa26f973b7528f},{440,0xb1e13897c4774},{440,0xc3aa5e9d52c1c},{440,0xc43cc45f364e6},{440,0xc726aeca58d73},{440,0xc8f769e14e77e},{440,0xd19a188d6f8bd},{440,0xd55777ec810a8},{440,0xe86195f690e98},{440,0xebddc6593c857},{440,0xebf42e134cc8e},{440,0xee36f0f6dc831},{440,0xf258db2da5441},
{441,0x6b5a40d1c45},{441,0x1b94c2bec388},{441,0xbdabea99fc53},{441,0x15fc31275351e},{441,0x201da3a506de9},{441,0x20418854f82bf},{441,0x224863af9954b},{441,0x2a3f1622ba6b4},{441,0x2bb0af7b8c2f5},{441,0x34360d0b8e1a6},{441,0x3bde3fee54740},{441,0x49ffcd63afcf3},{441,0x4e96b0558c450},{441,0x532d934768bac},{441,0x5ed0e0db97b1b},{441,0x678740d55ad1f},{441,0x6e74b6fd3f932},{441,0x7751259bd723b},{441,0x7bf035d4706e1},{441,0x9c90acb1652ee},{441,0xa26f973b7528f},{441,0xa66caf30ca282},{441,0xb2c40b4959d36},{441,0xbb0efe7b7d62d},{441,0xbca7e5a586fa5},{441,0xbdca0d4b7daab},{441,0xbfa5e16d59d89},{441,0xc3aa5e9d52c1c},{441,0xc43cc45f364e6},{441,0xc8f769e14e77e},{441,0xd19a188d6f8bd},{441,0xebddc6593c857},{441,0xebf42e134cc8e},{441,0xfe395220ae5c9},
{442,0x6b5a40d1c45},{442,0xbdabea99fc53},{442,0x15fc31275351e},{442,0x201da3a506de9},{442,0x20418854f82bf},{442,0x224863af9954b},{442,0x3bde3fee54740},{442,0x3fc09111c53f0},{442,0x46a5dc563bf55},{442,0x4e96b0558c450},{442,0x532d934768bac},{442,0x5b49fa94b3dcd},{442,0x5ed0e0db97b1b},{442,0x678740d55ad1f},{442,0x6e74b6fd3f932},{442,0x70f7228e7996a},{442,0x7bf035d4706e1},{442,0x9c90acb1652ee},{442,0x9d456f346c86f},{442,0xa26f973b7528f},{442,0xa66caf30ca282},{442,0xaf9a7d0719b21},{442,0xb2c40b4959d36},{442,0xbdca0d4b7daab},{442,0xbfa5e16d59d89},{442,0xc3aa5e9d52c1c},{442,0xd811743c91776},{442,0xe0c9b3962b7e2},{442,0xebf42e134cc8e},{442,0xf18f63cce0737},{442,0xfe395220ae5c9},
{443,0x15fc31275351e},{443,0x17a0cde5531fa},{443,0x185a894293b61},{443,0x25a6628f21bc3},{443,0x3bde3fee54740},{443,0x4e96b0558c450},{443,0x5dab3e55f5d8b},{443,0x6e74b6fd3f932},{443,0x748ab9c8d88f2},{443,0x9c90acb1652ee},{443,0xa26f973b7528f},{443,0xa382a65a69de0},{443,0xa66caf30ca282},{443,0xa7aa5bfd5f812},{443,0xad3733a35caa4},{443,0xaf9a7d0719b21},{443,0xb2c40b4959d36},{443,0xbfa5e16d59d89},{443,0xc1820752dbbb4},{443,0xc3aa5e9d52c1c},{443,0xd05474ae11c2c},{443,0xf18f63cce0737},{443,0xf5e2088052678},{443,0xfe395220ae5c9},
{444,0x254e78562838},{444,0xc765a0316103},{444,0xf2cc35edaca8},{444,0x13c3a650b7405},{444,0x15fc31275351e},{444,0x185a894293b61},{444,0x1cf16c34702be},{444,0x2d8fd3b99df86},{444,0x3bde3fee54740},{444,0x4635d9f81a678},{444,0x4e96b0558c450},{444,0x5cbf6bc0de97f},{444,0x6c003557f6c75},{444,0x6da5964152f0b},{444,0x6e74b6fd3f932},{444,0x748ab9c8d88f2},{444,0x97fb5f280da73},{444,0x9c90acb1652ee},{444,0xa23c5c6aef564},{444,0xa382a65a69de0},{444,0xa66caf30ca282},{444,0xad3733a35caa4},{444,0xb2c40b4959d36},{444,0xbfa5e16d59d89},{444,0xc3aa5e9d52c1c},{444,0xd05474ae11c2c},{444,0xd094f069fd12c},{444,0xd411192d48ca2},{444,0xd68819cd22087},{444,0xf18f63cce0737},{444,0xfe395220ae5c9},
{445,0x9112368e6c17},{445,0x13c3a650b7405},{445,0x15fc31275351e},{445,0x1697cc80c99ce},{445,0x185a894293b61},{445,0x1ec61daee1de5},{445,0x21884f264ca1a},{445,0x2d8fd3b99df86},{445,0x4635d9f81a678},{445,0x493f08f54b5c5},{445,0x529df9432b0b4},{445,0x58347cdb96819},{445,0x5cbf6bc0de97f},{445,0x66e0de3e9224a},{445,0x6da5964152f0b},{445,0x748ab9c8d88f2},{445,0x765144947247d},{445,0x7be64569cd1bc},{445,0x97fb5f280da73},{445,0x9a19ac118bf09},{445,0x9c90acb1652ee},{445,0xa23c5c6aef564},{445,0xa66caf30ca282},{445,0xa6d33f5ccbcc0},{445,0xad3733a35caa4},{445,0xae8d81de4edb3},{445,0xaffd9f765b3ed},{445,0xb850e2ef56fc8},{445,0xd68819cd22087},{445,0xe978b7780b613},{445,0xf18f63cce0737},{445,0xfd5ef2bc6678e},{445,0xfe395220ae5c9},
{446,0x9112368e6c17},{446,0xa95e06cfe54c},{446,0x15fc31275351e},{446,0x1697cc80c99ce},{446,0x185a894293b61},{446,0x1f88030112667},{446,0x21884f264ca1a},{446,0x2d8fd3b99df86},{446,0x3297cb93b4d58},{446,0x4635d9f81a678},{446,0x493f08f54b5c5},{446,0x5b00015dd34b4},{446,0x5cbf6bc0de97f},{446,0x5f96e44fafc11},{446,0x748ab9c8d88f2},{446,0x7be64569cd1bc},{446,0x8b6565310bbd2},{446,0x8e471bcd64255},{446,0x8fe0d0a37d7f2},{446,0x97fb5f280da73},{446,0xa23c5c6aef564},{446,0xa66caf30ca282},{446,0xa689c4300bea0},{446,0xa6d33f5ccbcc0},{446,0xaa70c7d05e15b},{446,0xad3733a35caa4},{446,0xae8d81de4edb3},{446,0xb850e2ef56fc8},{446,0xd60cb5ae256f6},{446,0xd68819cd22087},{446,0xd91bc4f0bf08e},{446,0xe978b7780b613},{446,0xfa885c8d117a6},{446,0xfd5ef2bc6678e},
{447,0x1c305e1839d3},{447,0xf589cdbd2ec7},{447,0x15fc31275351e},{447,0x1697cc80c99ce},{447,0x185a894293b61},{447,0x19fb2b5b153d5},{447,0x21884f264ca1a},{447,0x2dbda9e660149},{447,0x3297cb93b4d58},{447,0x39ad45503380b},{447,0x4635d9f81a678},{447,0x493f08f54b5c5},{447,0x5cbf6bc0de97f},{447,0x642dc7418c36d},{447,0x68cd9f9493125},{447,0x72f05b547a7a7},{447,0x7604736abc60a},{447,0x7be64569cd1bc},{447,0x80e9a05d4f8ba},{447,0x8e471bcd64255},{447,0x9515528a8b79e},{447,0x97fb5f280da73},{447,0x9c3aa2541a389},{447,0xa23c5c6aef564},{447,0xa6d33f5ccbcc0},{447,0xaa70c7d05e15b},{447,0xac5fd893ef1dd},{447,0xad3733a35caa4},{447,0xb850e2ef56fc8},{447,0xbb3750fb6f4b1},{447,0xd68819cd22087},{447,0xe978b7780b613},{447,0xef51bd5803381},{447,0xf57201de01167},{447,0xfd5ef2bc6678e},
{448,0x565b9c2d595e},{448,0xcc7b47da9a64},{448,0x19fb2b5b153d5},{448,0x1cecb40f59d4d},{448,0x2dbda9e660149},{448,0x2f4138d1311a9},{448,0x42423434e5524},{448,0x4600524907d94},{448,0x4635d9f81a678},{448,0x4aba280d75d9b},{448,0x5cbf6bc0de97f},{448,0x72f05b547a7a7},{448,0x7604736abc60a},{448,0x7be64569cd1bc},{448,0x8580834f2c017},{448,0x8a7d026f89be7},{448,0x9515528a8b79e},{448,0x97fb5f280da73},{448,0xa378eca4d2795},{448,0xa6d33f5ccbcc0},{448,0xaa70c7d05e15b},{448,0xac5fd893ef1dd},{448,0xad9a5f2286060},{448,0xb5312beaad767},{448,0xb7bbd1a03992b},{448,0xb850e2ef56fc8},{448,0xc1dd441ded1f6},{448,0xc825fb6a6b96a},{448,0xcfc6474d326db},{448,0xd68819cd22087},{448,0xe978b7780b613},{448,0xf2ab960b0281e},{448,0xf57201de01167},{448,0xfb3f512660303},{448,0xfd5ef2bc6678e},
{449,0x565b9c2d595e},{449,0xcc7b47da9a64},{449,0xee02182b4a60},{449,0x12b9861bcab9d},{449,0x19fb2b5b153d5},{449,0x26b875d075608},{449,0x3d35f381d440f},{449,0x4327ad101290c},{449,0x4600524907d94},{449,0x4635d9f81a678},{449,0x5e0262d9e21cf},{449,0x6592fb21687e1},{449,0x70d1b03050b9e},{449,0x715ac39ac1c07},{449,0x72f05b547a7a7},{449,0x776f389d707b9},{449,0x7be64569cd1bc},{449,0x9515528a8b79e},{449,0xa378eca4d2795},{449,0xa4bc3a90ce417},{449,0xa6d33f5ccbcc0},{449,0xabb6c42ace665},{449,0xad9a5f2286060},{449,0xb7bbd1a03992b},{449,0xb850e2ef56fc8},{449,0xbff78226c56a7},{449,0xc825fb6a6b96a},{449,0xcb0b93dfd7d6e},{449,0xcbbcf9bd3d346},{449,0xcfc6474d326db},{449,0xd62029195438c},{449,0xe4cb7aec099b1},{449,0xe978b7780b613},{449,0xf3d904cc5cdee},{449,0xfd5ef2bc6678e},
{450,0x359318acd71},{450,0x565b9c2d595e},{450,0xcc7b47da9a64},{450,0x19fb2b5b153d5},{450,0x26b875d075608},{450,0x3c9539d82aec7},{450,0x4600524907d94},{450,0x4635d9f81a678},{450,0x561c7c8fd0b0f},{450,0x5e0262d9e21cf},{450,0x715ac39ac1c07},{450,0x72f05b547a7a7},{450,0x776f389d707b9},{450,0x77bcb3ec20fe4},{450,0x7be64569cd1bc},{450,0x8bba884e35a79},{450,0x8bd64af2a45df},{450,0x9515528a8b79e},{450,0xa378eca4d2795},{450,0xa4bc3a90ce417},{450,0xa6d33f5ccbcc0},{450,0xbe0aa51d4b2bb},{450,0xbe9bfab5598df},{450,0xbff78226c56a7},{450,0xcb0b93dfd7d6e},{450,0xcd56221494557},{450,0xcfc6474d326db},{450,0xd62029195438c},{450,0xd6be572f1a922},{450,0xdab4c20263407},{450,0xdadfd6c44062b},{450,0xe978b7780b613},
{451,0x565b9c2d595e},{451,0xa473efbdf386},{451,0xcc7b47da9a64},{451,0x110d81e40b6bf},{451,0x13770474911bc},{451,0x155ab59ad18f6},{451,0x19fb2b5b153d5},{451,0x1a26546b78914},{451,0x26b875d075608},{451,0x283e8c79fccff},{451,0x2dc11b2953237},{451,0x4600524907d94},{451,0x4635d9f81a678},{451,0x4a3f27880fa0d},{451,0x57e91154bc0f7},{451,0x5a4337446ef2a},{451,0x5e0a75d41bcd1},{451,0x776f389d707b9},{451,0x7b02ea7e14ba2},{451,0x7f6353238f6c3},{451,0x8bd64af2a45df},{451,0x8e5741c1d7859},{451,0x9515528a8b79e},{451,0xa378eca4d2795},{451,0xa4bc3a90ce417},{451,0xa6d33f5ccbcc0},{451,0xba14b0b8b010c},{451,0xbe130ff090c5c},{451,0xbff78226c56a7},{451,0xc11d56118dd3b},{451,0xcd56221494557},{451,0xcfc6474d326db},{451,0xd6be572f1a922},{451,0xe978b7780b613},{451,0xeeb041cb81759},
{452,0x110d81e40b6bf},{452,0x13770474911bc},{452,0x26b875d075608},{452,0x283e8c79fccff},{452,0x2dad83f1ecb45},{452,0x34e3944716674},{452,0x4600524907d94},{452,0x4a3f27880fa0d},{452,0x529829e361cf8},{452,0x57e91154bc0f7},{452,0x5a4337446ef2a},{452,0x5e0a75d41bcd1},{452,0x667d63856588b},{452,0x7066934492b8a},{452,0x762cd24ddcd14},{452,0x776f389d707b9},{452,0x7f6353238f6c3},{452,0x8280111754a8a},{452,0x859ccf0b19e51},{452,0x8e533844baad8},{452,0x9c4647577f27a},{452,0xa378eca4d2795},{452,0xa4bc3a90ce417},{452,0xa6d33f5ccbcc0},{452,0xb53424fb91c01},{452,0xba14b0b8b010c},{452,0xbe130ff090c5c},{452,0xbff78226c56a7},{452,0xcd56221494557},{452,0xe167658f451c6},{452,0xecaea20536000},{452,0xedbd94cb50054},{452,0xf0815cd0e9242},
{453,0x1e1671666b47},{453,0x5ed9688b177b},{453,0x13770474911bc},{453,0x283e8c79fccff},{453,0x28cbe63aa83db},{453,0x2dc1b3637ceca},{453,0x32b0900969951},{453,0x34e3944716674},{453,0x39d4e65eebdac},{453,0x4600524907d94},{453,0x50c3c18b2d50c},{453,0x5a4337446ef2a},{453,0x5fe6d57f67647},{453,0x667d63856588b},{453,0x7066934492b8a},{453,0x7f6353238f6c3},{453,0x81d5de7f74503},{453,0x8280111754a8a},{453,0x859ccf0b19e51},{453,0x8bba884e35a79},{453,0x99f9b761b5366},{453,0x9b99ec8da929d},{453,0xa378eca4d2795},{453,0xa681b135d239e},{453,0xb73e1b0a3a8e7},{453,0xbff78226c56a7},{453,0xc9fe7a19209ab},{453,0xcd56221494557},{453,0xe16411f94ab5f},{453,0xecaea20536000},{453,0xedbd94cb50054},{453,0xeea92a61c3118},
{454,0x2f51023f36f},{454,0x22f8062d94fd},{454,0x98c23ee4cfa5},{454,0x13770474911bc},{454,0x1522d8724af92},{454,0x283e8c79fccff},{454,0x34e3944716674},{454,0x4600524907d94},{454,0x5a4337446ef2a},{454,0x5bb1d2af3587f},{454,0x5fe6d57f67647},{454,0x7066934492b8a},{454,0x75dc14879bf00},{454,0x760d19483fb6e},{454,0x8280111754a8a},{454,0x859ccf0b19e51},{454,0xa378eca4d2795},{454,0xb73e1b0a3a8e7},{454,0xbf9e59fc8f91f},{454,0xc3dba616829dd},{454,0xcbaa4e16da781},{454,0xd0adca1008103},{454,0xd6c260ac376a3},{454,0xedbd94cb50054},{454,0xfb8fac0998b79},{454,0xfd802917e5149},
{455,0x22f8062d94fd},{455,0x98c23ee4cfa5},{455,0x13770474911bc},{455,0x144cee736e0a7},{455,0x283e8c79fccff},{455,0x34e3944716674},{455,0x35e87646a93e9},{455,0x4013cee75c6fb},{455,0x4600524907d94},{455,0x51f742d8acdef},{455,0x5a4337446ef2a},{455,0x5dee336851e4a},{455,0x6f90a945b5c9f},{455,0x7066934492b8a},{455,0x760d19483fb6e},{455,0x80bea1492517a},{455,0x8280111754a8a},{455,0x859ccf0b19e51},{455,0x8fc297bdfb7b3},{455,0x94d2acff32ed5},{455,0xa73e345c3a436},{455,0xaf413a3d82c4b},{455,0xb8926137a216e},{455,0xb9a9bbb941996},{455,0xbf9e59fc8f91f},{455,0xbfab03cbacb26},{455,0xc3dba616829dd},{455,0xc852a61b66bd5},{455,0xcbaa4e16da781},{455,0xcc15431648ef7},{455,0xcc803815b766c},{455,0xd0adca1008103},{455,0xd5ed81dcdfb70},{455,0xd6c260ac376a3},{455,0xdcc7f0acd2093},{455,0xde80ca7350457},{455,0xedbd94cb50054},{455,0xef7a1c3b23a8b},{455,0xf0ec51d0579b8},{455,0xfd802917e5149},{455,0xffb3e3d80ac50},
{456,0x47ea8d5ed605},{456,0xb1be07fefc8e},{456,0x13770474911bc},{456,0x13e1f973ff932},{456,0x144cee736e0a7},{456,0x1c6e11f836907},{456,0x283e8c79fccff},{456,0x35e87646a93e9},{456,0x4013cee75c6fb},{456,0x40c969c3345e0},{456,0x4ef47ad85f8f7},{456,0x51f742d8acdef},{456,0x5a4337446ef2a},{456,0x61a4bd6d44835},{456,0x6de4d547fbec9},{456,0x6ffb9e4524414},{456,0x721267424c960},{456,0x72fedfc9524d2},{456,0x760d19483fb6e},{456,0x80bea1492517a},{456,0x8280111754a8a},{456,0x859ccf0b19e51},{456,0x8cf71d880dd28},{456,0x945cd1c272249},{456,0x98185c90a754d},{456,0xaf413a3d82c4b},{456,0xcc15431648ef7},{456,0xcc803815b766c},{456,0xd5ed81dcdfb70},{456,0xd78c3b1bd99d5},{456,0xd908ee04a9631},{456,0xdcc7f0acd2093},{456,0xe3923c2a9cd42},{456,0xe7c8442ff81d5},{456,0xedbd94cb50054},{456,0xeea92a61c3118},{456,0xef7a1c3b23a8b},{456,0xffb3e3d80ac50},
{457,0x47ea8d5ed605},{457,0xb1be07fefc8e},{457,0x13770474911bc},{457,0x1c6e11f836907},{457,0x1deb0667ad5b2},{457,0x1fffba6383181},{457,0x22493bdea4e80},{457,0x283e8c79fccff},{457,0x3139b4005a2fd},{457,0x40c969c3345e0},{457,0x4224465c4925e},{457,0x51f742d8acdef},{457,0x5a4337446ef2a},{457,0x6ffb9e4524414},{457,0x732a0a4d8f81c},{457,0x739d2a663e629},{457,0x760d19483fb6e},{457,0x80bea1492517a},{457,0x88036854fa76a},{457,0x945cd1c272249},{457,0x95de35c298cc5},{457,0x98185c90a754d},{457,0xb2286eb9e0f5e},{457,0xbae07e90253df},{457,0xc42514211613e},{457,0xc49d8138d754e},{457,0xcc15431648ef7},{457,0xcc803815b766c},{457,0xd908ee04a9631},{457,0xe3923c2a9cd42},{457,0xedbd94cb50054},{457,0xffb3e3d80ac50},
{458,0x47ea8d5ed605},{458,0x80abfee26529},{458,0x8cb71ee39a67},{458,0x110ecb3dfec44},{458,0x13770474911bc},{458,0x163f27d6fdb9d},{458,0x1deb0667ad5b2},{458,0x22493bdea4e80},{458,0x283e8c79fccff},{458,0x2b031fe8245c8},{458,0x41b9515cdaae8},{458,0x49c76e2aa9b67},{458,0x4f54d3d869396},{458,0x51f742d8acdef},{458,0x54144d23361c0},{458,0x5a4337446ef2a},{458,0x6ffb9e4524414},{458,0x732a0a4d8f81c},{458,0x739d2a663e629},{458,0x80bea1492517a},{458,0x871cc4b9490aa},{458,0x88036854fa76a},{458,0x91e9726f6e7e3},{458,0x95de35c298cc5},{458,0x997388018306c},{458,0x9a5d6059ef758},{458,0x9e3deb2d6dd40},{458,0xb2286eb9e0f5e},{458,0xbae07e90253df},{458,0xcc15431648ef7},{458,0xcc803815b766c},{458,0xd904f6ed7c225},{458,0xe3923c2a9cd42},{458,0xeb429002b09b7},{458,0xedbd94cb50054},{458,0xf7f528211a0d0},{458,0xfac284fe00f98},{458,0xff7c1c21db53c},{458,0xffb3e3d80ac50},
{459,0x47ea8d5ed605},{459,0x110ecb3dfec44},{459,0x12a8ab60c5212},{459,0x1e9f9bf06a26d},{459,0x22493bdea4e80},{459,0x3693b32236c13},{459,0x41b9515cdaae8},{459,0x4f54d3d869396},{459,0x51f742d8acdef},{459,0x55265219cfaf5},{459,0x55e23085e44b5},{459,0x58da77d0ff77e},{459,0x5a4337446ef2a},{459,0x6809ba90c7288},{459,0x6ffb9e4524414},{459,0x718f85851106f},{459,0x7b8c317f36a5f},{459,0x80bea1492517a},{459,0x871cc4b9490aa},{459,0x88036854fa76a},{459,0x997388018306c},{459,0x9e3deb2d6dd40},{459,0xa5cdfb5db1fe5},{459,0xb2286eb9e0f5e},{459,0xb55f11a1929d6},{459,0xb88ea9bf11bb9},{459,0xb9531337b56ac},{459,0xbae07e90253df},{459,0xcadd55723ee50},{459,0xcc15431648ef7},{459,0xde4954acf8b0f},{459,0xe3923c2a9cd42},{459,0xedbd94cb50054},{459,0xff7c1c21db53c},{459,0xffb3e3d80ac50},{459,0xffdc7521e4fdb},
{460,0xd3424a000fff},{460,0x110ecb3dfec44},{460,0x12a8ab60c5212},{460,0x158dcd71b9708},{460,0x1e9f9bf06a26d},{460,0x2caef3e5de39e},{460,0x43d01a5a03034},{460,0x4906d76e3a1c6},{460,0x4f54d3d869396},{460,0x55265219cfaf5},{460,0x5a4337446ef2a},{460,0x646b0b0b11dc9},{460,0x6ffb9e4524414},{460,0x7ab98472d9596},{460,0x7b8c317f36a5f},{460,0x84d98a3c7338d},{460,0x871cc4b9490aa},{460,0x88036854fa76a},{460,0x8861578b04c4a},{460,0x8d1914a5540f3},{460,0x92ad57f35b6f5},{460,0x98204bc2d2c7f},{460,0x997388018306c},{460,0x9e3deb2d6dd40},{460,0xa5cdfb5db1fe5},{460,0xaaf1adc4b5f8d},{460,0xb2286eb9e0f5e},{460,0xb88ea9bf11bb9},{460,0xb9531337b56ac},{460,0xbae07e90253df},{460,0xbe82e2160fed7},{460,0xc0ac3d0aac554},{460,0xcadd55723ee50},{460,0xcfbe97bba6e06},{460,0xdc6797acc85f4},{460,0xde4954acf8b0f},{460,0xdf88fb15af597},{460,0xedbd94cb50054},{460,0xf663cf0b4a1dc},
{461,0x3960ff472b47},{461,0xd3424a000fff},{461,0x110ecb3dfec44},{461,0x1190930b7e639},{461,0x4cb8116481c47},{461,0x4f54d3d869396},{461,0x55265219cfaf5},{461,0x5a4337446ef2a},{461,0x6ffb9e4524414},{461,0x75c3e7e22d73a},{461,0x7ab98472d9596},{461,0x7b8c317f36a5f},{461,0x7d7a26bbc0d6d},{461,0x81547b1c3fd85},{461,0x871cc4b9490aa},{461,0x8ce50e56523d0},{461,0x8d1914a5540f3},{461,0x997388018306c},{461,0xa5cdfb5db1fe5},{461,0xb2286eb9e0f5e},{461,0xb88ea9bf11bb9},{461,0xb9531337b56ac},{461,0xbae07e90253df},{461,0xc0ac3d0aac554},{461,0xc89fad4239084},{461,0xcadd55723ee50},{461,0xcd34bcd2ea4bb},{461,0xcfbe97bba6e06},{461,0xd48e54e3866eb},{461,0xdc6797acc85f4},{461,0xf663cf0b4a1dc},
{462,0x110ecb3dfec44},{462,0x4f54d3d869396},{462,0x5225a3f8d458f},{462,0x55265219cfaf5},{462,0x58d1b44aeb0a2},{462,0x5f3b47424bf93},{462,0x64c8a4da900fd},{462,0x69503c6ac8431},{462,0x7b8c317f36a5f},{462,0x81547b1c3fd85},{462,0x871cc4b9490aa},{462,0x8d1914a5540f3},{462,0xa5cdfb5db1fe5},{462,0xb2286eb9e0f5e},{462,0xb88ea9bf11bb9},{462,0xbae07e90253df},{462,0xc0ac3d0aac554},{462,0xc2183454fa27e},{462,0xc40a9db187c4d},{462,0xc89fad4239084},{462,0xcadd55723ee50},{462,0xcd34bcd2ea4bb},{462,0xd3a2768f83a22},{462,0xf3e0bfedcb069},{462,0xf663cf0b4a1dc},
{463,0x434f09a9dd97},{463,0x9fd3a37a70bd},{463,0xfc583d4b03e2},{463,0x158dcd71b9708},{463,0x1b56170ec2a2d},{463,0x211e60abcbd53},{463,0x21d71ed5484c4},{463,0x26e6aa48d5078},{463,0x28f5f20c56f36},{463,0x2caef3e5de39e},{463,0x40fc67c8d71b9},{463,0x44b7bf78ace6d},{463,0x5225a3f8d458f},{463,0x55265219cfaf5},{463,0x58d1b44aeb0a2},{463,0x5f3b47424bf93},{463,0x64c8a4da900fd},{463,0x6cd73c401be64},{463,0x8274291c6065a},{463,0x8d1914a5540f3},{463,0xa09b57a8c92c4},{463,0xa5cdfb5db1fe5},{463,0xbae07e90253df},{463,0xc0ac3d0aac554},{463,0xc40a9db187c4d},{463,0xc67ac4e39c867},{463,0xc89fad4239084},{463,0xcadd55723ee50},{463,0xcd34bcd2ea4bb},{463,0xcf3fe600e1439},{463,0xe3113363787f1},{463,0xe8b31a3711e05},{463,0xebc32ca2306ce},{463,0xf663cf0b4a1dc},
{464,0x434f09a9dd97},{464,0x312df61998e61},{464,0x32a3fbb944fdc},{464,0x3e07d0bcf9d0e},{464,0x40fc67c8d71b9},{464,0x44b7bf78ace6d},{464,0x5225a3f8d458f},{464,0x5a30ccae0dd44},{464,0x5f3b47424bf93},{464,0x64c8a4da900fd},{464,0x73653193448cf},{464,0x77dab0df55c85},{464,0x9abb74c12a774},{464,0xadee0755f80ab},{464,0xb1ad9101b1bfc},{464,0xbae07e90253df},{464,0xc89fad4239084},{464,0xcadd55723ee50},{464,0xcd6c983daf9e3},{464,0xd1c9cc639b8f2},{464,0xd334e1dab8d08},{464,0xd8fd2b77c202e},{464,0xdec57514cb353},{464,0xe3113363787f1},{464,0xe48dbeb1d4679},{464,0xea56084edd99e},{464,0xf01e51ebe6cc4},
{465,0x434f09a9dd97},{465,0x9afdc438245e},{465,0x236ec767851bc},{465,0x312df61998e61},{465,0x32a3fbb944fdc},{465,0x3a58153afb6cf},{465,0x3e07d0bcf9d0e},{465,0x40fc67c8d71b9},{465,0x5225a3f8d458f},{465,0x5a30ccae0dd44},{465,0x5f3b47424bf93},{465,0x64c8a4da900fd},{465,0x6917bcd01d456},{465,0x73653193448cf},{465,0x77dab0df55c85},{465,0x7ec0a895c1f16},{465,0x8009d5a76631d},{465,0x9a9b6bae266c0},{465,0x9abb74c12a774},{465,0x9c4c3fb33bf6b},{465,0xb1ad9101b1bfc},{465,0xc89fad4239084},{465,0xcadd55723ee50},{465,0xcf80c2965aa80},{465,0xd1c9cc639b8f2},{465,0xd8fd2b77c202e},{465,0xdec57514cb353},{465,0xe3113363787f1},{465,0xe48dbeb1d4679},
{466,0x434f09a9dd97},{466,0x9afdc438245e},{466,0x211e60abcbd53},{466,0x236ec767851bc},{466,0x2cf80eb893588},{466,0x3e07d0bcf9d0e},{466,0x40fc67c8d71b9},{466,0x5225a3f8d458f},{466,0x55e51fff949dc},{466,0x5a30ccae0dd44},{466,0x5af140ce27cca},{466,0x64c8a4da900fd},{466,0x6917bcd01d456},{466,0x6a4ce68a9a5f5},{466,0x6cccde3308da1},{466,0x77dab0df55c85},{466,0x7a5e18071f92d},{466,0x7a9c49e590557},{466,0x7ec0a895c1f16},{466,0x8009d5a76631d},{466,0x83233924644ff},{466,0x94c420f083c41},{466,0x98971e5050620},{466,0x9a9b6bae266c0},{466,0x9c4c3fb33bf6b},{466,0xa4ceff04006b3},{466,0xa63482e16e1b8},{466,0xb1ad9101b1bfc},{466,0xbd269f21f5640},{466,0xbf026042e8b70},{466,0xc89fad4239084},{466,0xcadd55723ee50},{466,0xce970112dfbb8},{466,0xd1c9cc639b8f2},{466,0xe3113363787f1},{466,0xf0ebabe07d5ed},
{467,0x434f09a9dd97},{467,0x12104ad2a4162},{467,0x150096c2ed8ac},{467,0x15385df879ca3},{467,0x1e644cd346f6d},{467,0x236ec767851bc},{467,0x27fd1d9bcfeef},{467,0x2cf80eb893588},{467,0x3de9f064fbc7c},{467,0x40fc67c8d71b9},{467,0x5225a3f8d458f},{467,0x5a30ccae0dd44},{467,0x6917bcd01d456},{467,0x7a9c49e590557},{467,0x7ec0a895c1f16},{467,0x8f4266a0e6d30},{467,0x95fd4c88d4b1b},{467,0x98971e5050620},{467,0xa6af0cf7096f3},{467,0xb1ad9101b1bfc},{467,0xb76a1811d391e},{467,0xc4e0202d40f72},{467,0xc89fad4239084},{467,0xd1c9cc639b8f2},{467,0xdda1f79c458a7},{467,0xe3113363787f1},{467,0xeafe3148d247d},{467,0xf02b9e8adf71e},{467,0xf0ebabe07d5ed},{467,0xf1ebe6b8e6036},
{468,0x12104ad2a4162},{468,0x150096c2ed8ac},{468,0x1d6b883ad4919},{468,0x1ef1ccbf4b764},{468,0x236ec767851bc},{468,0x24ba165c54a8a},{468,0x2a825ff95ddaf},{468,0x2cf80eb893588},{468,0x304aa996670d5},{468,0x3612f333703fa},{468,0x40fc67c8d71b9},{468,0x5225a3f8d458f},{468,0x58c24ed5dae07},{468,0x62c7968471dd4},{468,0x6917bcd01d456},{468,0x6a8b3cbaeb1b5},{468,0x7a9c49e590557},{468,0x7ec0a895c1f16},{468,0x7fb068c07f523},{468,0x95fd4c88d4b1b},{468,0xabf109f18feda},{468,0xaca1adad7e5ba},{468,0xafbdc5edb3b19},{468,0xb1ad9101b1bfc},{468,0xb48bd489c2a8d},{468,0xc4e0202d40f72},{468,0xc89fad4239084},{468,0xd00622d6e8300},{468,0xd1c9cc639b8f2},{468,0xe3113363787f1},{468,0xeafe3148d247d},{468,0xecef92e8162bc},{468,0xed5086ae5a8e4},
{469,0x12104ad2a4162},{469,0x1361398539119},{469,0x150096c2ed8ac},{469,0x15be4615e2eda},{469,0x228d826fd449b},{469,0x235992fe64aca},{469,0x24ba165c54a8a},{469,0x2a825ff95ddaf},{469,0x2cf80eb893588},{469,0x304aa996670d5},{469,0x36fd56672a555},{469,0x3d0349b947136},{469,0x47dfd29e829ae},{469,0x4d3419a795090},{469,0x5225a3f8d458f},{469,0x6917bcd01d456},{469,0x6a1d89b8c304c},{469,0x7293c3503db86},{469,0x7a9c49e590557},{469,0x7ec0a895c1f16},{469,0x7fb068c07f523},{469,0x95fd4c88d4b1b},{469,0xabf109f18feda},{469,0xad39f07be7720},{469,0xb1ad9101b1bfc},{469,0xba485b99e47af},{469,0xbcdf6b27882f4},{469,0xc07dbee8d37cc},{469,0xc2a7b4c49161a},{469,0xc4e0202d40f72},{469,0xce66a61c2ee6c},{469,0xd1c9cc639b8f2},{469,0xd750a7d36a941},{469,0xdbb338620cf2a},{469,0xe015c8f0af513},{469,0xe478597f51afc},{469,0xed5086ae5a8e4},
{470,0x49c68dfac74f},{470,0x12104ad2a4162},{470,0x1361398539119},{470,0x150096c2ed8ac},{470,0x15be4615e2eda},{470,0x1f842cc59bb75},{470,0x1faf3ee7c360a},{470,0x211e60abcbd53},{470,0x228d826fd449b},{470,0x235992fe64aca},{470,0x304aa996670d5},{470,0x47dfd29e829ae},{470,0x6a1d89b8c304c},{470,0x7293c3503db86},{470,0x73c4093cbf3e6},{470,0x79657025b6234},{470,0x7a8747448b6b9},{470,0x7a9c49e590557},{470,0x7fb068c07f523},{470,0x80f1b4f344054},{470,0x95fd4c88d4b1b},{470,0xab868e506c984},{470,0xabf109f18feda},{470,0xb31cb2c5ba345},{470,0xb89eb3ecf9fe2},{470,0xba485b99e47af},{470,0xc4e0202d40f72},{470,0xc86ffe619a93f},{470,0xce66a61c2ee6c},{470,0xce8b86b625d6f},{470,0xd1b4fb8ab22a8},{470,0xd1c9cc639b8f2},{470,0xdbb338620cf2a},{470,0xe015c8f0af513},{470,0xe478597f51afc},{470,0xf9f46d4e38a07},{470,0xfa652c487d889},{470,0xfaacba0ea8ef5},
{471,0x3009b971a460},{471,0x49c68dfac74f},{471,0x12104ad2a4162},{471,0x15be4615e2eda},{471,0x1faf3ee7c360a},{471,0x261ada2fd20fc},{471,0x304aa996670d5},{471,0x4277c66ec1e15},{471,0x47dfd29e829ae},{471,0x60eb68c84a9ae},{471,0x678404a2af311},{471,0x6a1d89b8c304c},{471,0x6de89bf369d2c},{471,0x7a8747448b6b9},{471,0x7a9c49e590557},{471,0x80f1b4f344054},{471,0x8b233c5d58c0d},{471,0x8e9d1e3f3e9c8},{471,0x95fd4c88d4b1b},{471,0x9f22c8297b8d3},{471,0xa2c6ead02d66c},{471,0xa2e8ea90427e3},{471,0xb31cb2c5ba345},{471,0xba485b99e47af},{471,0xbd8429e4d6a13},{471,0xc4e0202d40f72},{471,0xc86ffe619a93f},{471,0xce8b86b625d6f},{471,0xd1c9cc639b8f2},{471,0xdbb338620cf2a},{471,0xe478597f51afc},{471,0xe982d2a2e7821},{471,0xea9d783106611},{471,0xeb5d08f24cf94},{471,0xf9f46d4e38a07},
{472,0x306f85f4eacb},{472,0x49c68dfac74f},{472,0xf96274a92439},{472,0x12104ad2a4162},{472,0x15be4615e2eda},{472,0x18b50361b8792},{472,0x1b0c141c489a7},{472,0x1cef254fac12f},{472,0x2b3b227baf210},{472,0x304aa996670d5},{472,0x3415bbd10ddb5},{472,0x378a64a44035f},{472,0x397dd9cd77588},{472,0x409d901f5c6a2},{472,0x4277c66ec1e15},{472,0x47dfd29e829ae},{472,0x632174140cd28},{472,0x6a1d89b8c304c},{472,0x6c3a897bcb498},{472,0x6de89bf369d2c},{472,0x7a8747448b6b9},{472,0x8e9d1e3f3e9c8},{472,0x95fd4c88d4b1b},{472,0x9a7252bfba683},{472,0x9b2c4d2a82336},{472,0x9c05b894b1066},{472,0x9e7568b8b4098},{472,0xa2c6ead02d66c},{472,0xa2e8ea90427e3},{472,0xba485b99e47af},{472,0xbd8429e4d6a13},{472,0xbfc00f95de19e},{472,0xc4a4ec26f3c5f},{472,0xc4e0202d40f72},{472,0xc86ffe619a93f},{472,0xce8b86b625d6f},{472,0xd1c9cc639b8f2},{472,0xda1e64740e8db},{472,0xe478597f51afc},{472,0xe7971cdfedd6f},{472,0xe92480ad6f5db},{472,0xe982d2a2e7821},{472,0xeb5d08f24cf94},{472,0xf211ef7676342},
{473,0x49c68dfac74f},{473,0x12104ad2a4162},{473,0x1b0c141c489a7},{473,0x1b1a2f57121d3},{473,0x329ba020c9316},{473,0x409d901f5c6a2},{473,0x42bfb1aa3683e},{473,0x4d34a14ae0f9b},{473,0x5908d5f465d0c},{473,0x61104962418b1},{473,0x632174140cd28},{473,0x6c3a897bcb498},{473,0x7619c2dfcd25f},{473,0x79657025b6234},{473,0x7a8747448b6b9},{473,0x8b457a0676529},{473,0x95fd4c88d4b1b},{473,0x9c05b894b1066},{473,0xa194796480a2b},{473,0xa3cce6c9af412},{473,0xaa5d572ccf719},{473,0xb31cb2c5ba345},{473,0xb95d2c9ea34be},{473,0xba485b99e47af},{473,0xbbe0cf7656fd2},{473,0xbd8429e4d6a13},{473,0xbfc00f95de19e},{473,0xc4a4ec26f3c5f},{473,0xc4e0202d40f72},{473,0xca336006f9845},{473,0xce8b86b625d6f},{473,0xd62d25882d579},{473,0xdf029b34fc3c0},{473,0xe92480ad6f5db},{473,0xeb5d08f24cf94},{473,0xf211ef7676342},
{474,0x49c68dfac74f},{474,0xb067393848e8},{474,0xb3418f243df2},{474,0x1b0c141c489a7},{474,0x1b1a2f57121d3},{474,0x32d65920f7000},{474,0x3877ca295c3fc},{474,0x3934b6e1c68d6},{474,0x42bfb1aa3683e},{474,0x4d34a14ae0f9b},{474,0x65bb7b6074a05},{474,0x6ab145787b4c1},{474,0x74a23045b43c1},{474,0x7a8747448b6b9},{474,0x83772d6ede09d},{474,0x8b457a0676529},{474,0x8de0140083685},{474,0x92ff2c978d00f},{474,0x95fd4c88d4b1b},{474,0x9c05b894b1066},{474,0xa3cce6c9af412},{474,0xa8921e2a6ce7b},{474,0xb252d96359f64},{474,0xb31cb2c5ba345},{474,0xba485b99e47af},{474,0xbad4bf38bc35c},{474,0xbbe0cf7656fd2},{474,0xbd8429e4d6a13},{474,0xbfc00f95de19e},{474,0xc042ddcea5618},{474,0xc4a4ec26f3c5f},{474,0xcd6908d7908ec},{474,0xce8b86b625d6f},{474,0xdf029b34fc3c0},{474,0xe5e5cd308db3d},{474,0xeb5d08f24cf94},
{475,0x49c68dfac74f},{475,0x16eb22372697d},{475,0x1b0c141c489a7},{475,0x1b1a2f57121d3},{475,0x22e026a0a864f},{475,0x25d201d9707c5},{475,0x3877ca295c3fc},{475,0x3e6d969fd1adc},{475,0x532fd4aec437e},{475,0x5f7343a31e6a7},{475,0x61cf19235ac11},{475,0x65bb7b6074a05},{475,0x83772d6ede09d},{475,0x927cd0892fe38},{475,0x92ff2c978d00f},{475,0x95fd4c88d4b1b},{475,0x9c05b894b1066},{475,0xb77ec11e0898b},{475,0xba485b99e47af},{475,0xbad4bf38bc35c},{475,0xbbe0cf7656fd2},{475,0xbd8429e4d6a13},{475,0xbfc00f95de19e},{475,0xc042ddcea5618},{475,0xc4a4ec26f3c5f},{475,0xd4b3af3e0a5fa},{475,0xe213e6aa99126},{475,0xe5e5cd308db3d},{475,0xeee14010f70e4},{475,0xf21bd99eb3a46},
{476,0x100da7d9ea1d},{476,0x49c68dfac74f},{476,0x12f52233935b9},{476,0x1b1a2f57121d3},{476,0x3934189989782},{476,0x3ac0ad4447f30},{476,0x3e6d969fd1adc},{476,0x4ce89b98c13dd},{476,0x514aa9f10fa24},{476,0x61cf19235ac11},{476,0x6d8a5aa5b2310},{476,0x6e94411d466ff},{476,0x83772d6ede09d},{476,0x9279195fd5523},{476,0x95fd4c88d4b1b},{476,0xa2ac8869d60f2},{476,0xaa5896151d6b8},{476,0xba485b99e47af},{476,0xbbe0cf7656fd2},{476,0xbd8429e4d6a13},{476,0xbfc00f95de19e},{476,0xc042ddcea5618},{476,0xc6bcd9c8e9d01},{476,0xd0917aac610b7},{476,0xd62d25882d579},{476,0xd7becc2f23ac1},{476,0xe162e5c2e3fd0},{476,0xe213e6aa99126},{476,0xf21bd99eb3a46},
{477,0x49c68dfac74f},{477,0x179d88d61d906},{477,0x3e6d969fd1adc},{477,0x3fc2708fd610a},{477,0x40318114d2439},{477,0x55acb8495e06a},{477,0x60873a6fa37ae},{477,0x61cf19235ac11},{477,0x628c3854fc8a7},{477,0x669ebee6bbeb4},{477,0x6d8a5aa5b2310},{477,0x6e94411d466ff},{477,0x8695bcb3b34fb},{477,0x942f8cef37336},{477,0x946e4e5b95757},{477,0x95fd4c88d4b1b},{477,0x9cc6f2a93f369},{477,0xa2ac8869d60f2},{477,0xb347639a9ade9},{477,0xba485b99e47af},{477,0xbfc00f95de19e},{477,0xc042ddcea5618},{477,0xd0917aac610b7},{477,0xdd58e73fb2f9d},{477,0xe162e5c2e3fd0},{477,0xe213e6aa99126},{477,0xeeecf9e26a685},{477,0xf21bd99eb3a46},{477,0xf58df091490ef},{477,0xfed7588fd894a},
{478,0x7cb489bf5b10},{478,0xc4e1dbacf7d1},{478,0x179d88d61d906},{478,0x2061a586ba593},{478,0x2949b9ec1b4bd},{478,0x35e0b0aef6f3c},{478,0x3e1f0753822b1},{478,0x3e6d969fd1adc},{478,0x3ed333d60753d},{478,0x40318114d2439},{478,0x55acb8495e06a},{478,0x61cf19235ac11},{478,0x6bf033526178f},{478,0x708d0f84d3de7},{478,0x7f4b05e64cfbd},{478,0x80dcf3ca74b23},{478,0x818147bc6df2b},{478,0x8695bcb3b34fb},{478,0x8af7cb0c01b41},{478,0x942f8cef37336},{478,0x946e4e5b95757},{478,0x95fd4c88d4b1b},{478,0xa2ac8869d60f2},{478,0xa4a25811b7c82},{478,0xba485b99e47af},{478,0xc042ddcea5618},{478,0xd0917aac610b7},{478,0xd4cc014ed83fd},{478,0xdae8672ff7384},{478,0xdd58e73fb2f9d},{478,0xe213e6aa99126},{478,0xe85faff5efb33},{478,0xf1704a50d164f},{478,0xf58df091490ef},{478,0xfed7588fd894a},
{479,0x6bd8e7e55392},{479,0x7cb489bf5b10},{479,0x1119b4f208fa3},{479,0x179d88d61d906},{479,0x3ed333d60753d},{479,0x40318114d2439},{479,0x50afb61581ef2},{479,0x5ba73a7e1eed3},{479,0x6c469c8c66817},{479,0x6f01ed3fcb1ae},{479,0x708d0f84d3de7},{479,0x7f4b05e64cfbd},{479,0x80dcf3ca74b23},{479,0x8695bcb3b34fb},{479,0x875840fff19b4},{479,0x87b6553e94fe7},{479,0x8af7cb0c01b41},{479,0x8d17b74f35285},{479,0x942f8cef37336},{479,0x9448988560fb6},{479,0x946e4e5b95757},{479,0xa2ac8869d60f2},{479,0xa4a25811b7c82},{479,0xa4cfc1e60cbda},{479,0xa59d546d538ad},{479,0xb08ee36f3f5fa},{479,0xb0bf11f1d543f},{479,0xba485b99e47af},{479,0xc042ddcea5618},{479,0xc809f69b1e7be},{479,0xd037646b1e771},{479,0xd0917aac610b7},{479,0xd4cc014ed83fd},{479,0xdae8672ff7384},{479,0xdd58e73fb2f9d},{479,0xe85faff5efb33},{479,0xf58df091490ef},{479,0xfbe4604705c46},
{480,0x5bc1c2568828},{480,0x7cb489bf5b10},{480,0x7fd9dcaf65d8},{480,0x819bcf94d72d},{480,0xa775dcd32633},{480,0xc7022ff14c31},{480,0x1119b4f208fa3},{480,0x22b232ef16826},{480,0x2562e3f766975},{480,0x3ed333d60753d},{480,0x50afb61581ef2},{480,0x564d854101375},{480,0x5ba73a7e1eed3},{480,0x708d0f84d3de7},{480,0x7686d5e96ea9b},{480,0x77ec0ab5906d2},{480,0x875840fff19b4},{480,0x8af7cb0c01b41},{480,0x8d17b74f35285},{480,0x8fb30cb3cb94c},{480,0x942f8cef37336},{480,0x9829ac16748cd},{480,0xa2ac8869d60f2},{480,0xa4cfc1e60cbda},{480,0xba485b99e47af},{480,0xc042ddcea5618},{480,0xc809f69b1e7be},{480,0xd037646b1e771},{480,0xd1d38d3af2a92},{480,0xd4060f8f4996f},{480,0xdae8672ff7384},{480,0xdd58e73fb2f9d},{480,0xe71423dd1da3e},{480,0xf4cc8aa703b95},{480,0xf58df091490ef},{480,0xfbe4604705c46},
{481,0x5bc1c2568828},{481,0x819bcf94d72d},{481,0xc7022ff14c31},{481,0x1119b4f208fa3},{481,0x2c56a9f03c265},{481,0x3341298f62e37},{481,0x33bd7732c0454},{481,0x34cf13f0db9c8},{481,0x3ed333d60753d},{481,0x48da101770cea},{481,0x50afb61581ef2},{481,0x564d854101375},{481,0x642e4d63f96a3},{481,0x708d0f84d3de7},{481,0x875840fff19b4},{481,0x87854c2092e57},{481,0x8af7cb0c01b41},{481,0x8d556bdfe6a47},{481,0xa2a01352f3178},{481,0xa2ac8869d60f2},{481,0xa4cfc1e60cbda},{481,0xae1cc1c52ad7a},{481,0xbb51a7907fb36},{481,0xc0f220fb1c70d},{481,0xc809f69b1e7be},{481,0xd037646b1e771},{481,0xd4060f8f4996f},{481,0xdae8672ff7384},{481,0xdb6f587080531},{481,0xe1f72b7112202},{481,0xe71423dd1da3e},{481,0xea2c4028fb10d},{481,0xf4907090643fe},{481,0xf4cc8aa703b95},
{482,0x35e7b5183922},{482,0x819bcf94d72d},{482,0x1119b4f208fa3},{482,0x279c5e22c592a},{482,0x28d1407dfa832},{482,0x2c56a9f03c265},{482,0x33bd7732c0454},{482,0x40f7a6609efe8},{482,0x48da101770cea},{482,0x4988c402a7937},{482,0x642e4d63f96a3},{482,0x6ccf6aeb742d1},{482,0x708d0f84d3de7},{482,0x875840fff19b4},{482,0x87854c2092e57},{482,0x8af7cb0c01b41},{482,0x9f8b5a49f8513},{482,0xa2a01352f3178},{482,0xa4cfc1e60cbda},{482,0xabde5845d8ae4},{482,0xad5ca7d6e777a},{482,0xbb135c3024a9c},{482,0xc0f220fb1c70d},{482,0xc809f69b1e7be},{482,0xcec472e940c51},{482,0xd037646b1e771},{482,0xdae8672ff7384},{482,0xe71423dd1da3e},{482,0xf18b3b59b79f8},{482,0xf4907090643fe},
{483,0x35e7b5183922},{483,0x5f987f5bfaf8},{483,0x819bcf94d72d},{483,0x1119b4f208fa3},{483,0x1469cba39ee6d},{483,0x28d1407dfa832},{483,0x2cc8fdccab336},{483,0x33bd7732c0454},{483,0x3f5018cd5a3b9},{483,0x472b232ec2a32},{483,0x4988c402a7937},{483,0x577a4f915b96f},{483,0x5bedfeab9df4c},{483,0x632c3ffb4d1ca},{483,0x6a40478754a3c},{483,0x6ccf6aeb742d1},{483,0x708d0f84d3de7},{483,0x875840fff19b4},{483,0x8af7cb0c01b41},{483,0xa2a01352f3178},{483,0xa55890451a694},{483,0xb736326e879f9},{483,0xc0f220fb1c70d},{483,0xc18ea965a192d},{483,0xc809f69b1e7be},{483,0xccb0536608d61},{483,0xcec472e940c51},{483,0xd037646b1e771},{483,0xdcd018e0a54e3},{483,0xe1e7843338032},{483,0xe71423dd1da3e},{483,0xf18b3b59b79f8},{483,0xf4907090643fe},
{484,0x35e7b5183922},{484,0x819bcf94d72d},{484,0x109bdb178b621},{484,0x1469cba39ee6d},{484,0x18757ebba3fb0},{484,0x190528a214c00},{484,0x27b78776c95af},{484,0x28d1407dfa832},{484,0x2b2ee151df738},{484,0x2c3c2a392d157},{484,0x2cc8fdccab336},{484,0x33bd7732c0454},{484,0x392d0240510b5},{484,0x427b6d943962a},{484,0x46a8e47ad8a56},{484,0x472b232ec2a32},{484,0x4988c402a7937},{484,0x528fcd0873a5b},{484,0x52ff47523b54d},{484,0x5a109f664e675},{484,0x632c3ffb4d1ca},{484,0x6c8b03bbed574},{484,0x708d0f84d3de7},{484,0x80211ce43b563},{484,0x875840fff19b4},{484,0x8af7cb0c01b41},{484,0x9e9eb1756e5a4},{484,0xa2a01352f3178},{484,0xb49fe29994cf3},{484,0xb736326e879f9},{484,0xc0f220fb1c70d},{484,0xc18ea965a192d},{484,0xccb0536608d61},{484,0xcec472e940c51},{484,0xdcd018e0a54e3},{484,0xe1e7843338032},{484,0xe71423dd1da3e},{484,0xf4907090643fe},
{485,0x35e7b5183922},{485,0x44a0629026eb},{485,0x18757ebba3fb0},{485,0x18acb4dbcbe95},{485,0x269bb0ce90580},{485,0x28d1407dfa832},{485,0x2cc8fdccab336},{485,0x33bd7732c0454},{485,0x392d0240510b5},{485,0x427b6d943962a},{485,0x528fcd0873a5b},{485,0x52ff47523b54d},{485,0x5a109f664e675},{485,0x632c3ffb4d1ca},{485,0x670092bd65205},{485,0x708d0f84d3de7},{485,0x7697259a24c32},{485,0x7bf775f0f3e90},{485,0x875840fff19b4},{485,0x88f1ca0083e04},{485,0x8af7cb0c01b41},{485,0x94c2abe69ab56},{485,0x9e9eb1756e5a4},{485,0xb49fe29994cf3},{485,0xb50bffdbcc80a},{485,0xb736326e879f9},{485,0xc0f220fb1c70d},{485,0xc567c19e2308d},{485,0xc65917d1e84e2},{485,0xcec472e940c51},{485,0xdcc293d7b25ce},{485,0xdcd018e0a54e3},{485,0xe71423dd1da3e},
{486,0x35e7b5183922},{486,0x1193034aa6471},{486,0x18acb4dbcbe95},{486,0x1ee796c1e9ae4},{486,0x2b2ee151df738},{486,0x2cc8fdccab336},{486,0x392d0240510b5},{486,0x3a6b8ad6eb269},{486,0x3faaf8a13bbd9},{486,0x42324702d8fad},{486,0x53993c0048058},{486,0x708d0f84d3de7},{486,0x734ad913a8fb7},{486,0x73ee2cfe67ee9},{486,0x7a697a33e4d7a},{486,0x7abe66de389bc},{486,0x7bf775f0f3e90},{486,0x80e4c76961c0b},{486,0x83f8ba94c8e83},{486,0x875840fff19b4},{486,0x98f5ebfa734be},{486,0xa6ae9432bc965},{486,0xc0c651facf2d4},{486,0xc0f220fb1c70d},{486,0xc65917d1e84e2},{486,0xccb0536608d61},{486,0xd5c383607990f},{486,0xdcd018e0a54e3},{486,0xe71423dd1da3e},{486,0xe85ee7993e64f},{486,0xeb037c02f092b},
{487,0x35e7b5183922},{487,0x1193034aa6471},{487,0x18acb4dbcbe95},{487,0x1ee796c1e9ae4},{487,0x1fd93c8cc0cdf},{487,0x21773af7a3a51},{487,0x2b2ee151df738},{487,0x2cc8fdccab336},{487,0x392d0240510b5},{487,0x40311ce6799c7},{487,0x436ce7a512f72},{487,0x4a610a05a6504},{487,0x5a00f828744a5},{487,0x5e92de6a8cf9c},{487,0x69429222e15bf},{487,0x708d0f84d3de7},{487,0x73ee2cfe67ee9},{487,0x75fa99a657506},{487,0x7a697a33e4d7a},{487,0x7abe66de389bc},{487,0x7bf775f0f3e90},{487,0x81d8186f5e3e0},{487,0x875840fff19b4},{487,0x8b9dd1dbc83a6},{487,0x951a598efee66},{487,0x98f5ebfa734be},{487,0x9ad1fc3f5564f},{487,0xa6ae9432bc965},{487,0xbb69b6abcee7a},{487,0xc0c651facf2d4},{487,0xc0f220fb1c70d},{487,0xc1bf5689b0f24},{487,0xc65917d1e84e2},{487,0xccb0536608d61},{487,0xce87dad4b5a39},{487,0xd5c383607990f},{487,0xdcd018e0a54e3},{487,0xe3c1a44eeb28c},{487,0xe71423dd1da3e},{487,0xe896b7fb2b0e9},{487,0xeb037c02f092b},{487,0xeed7457322689},{487,0xf7e0db3799aa2},{487,0xfb295f8ab57f6},{487,0xfbc706b30cce0},
{488,0x35e7b5183922},{488,0x436401cb7fbe},{488,0x1193034aa6471},{488,0x18acb4dbcbe95},{488,0x1960deb2dcca5},{488,0x1fd93c8cc0cdf},{488,0x21773af7a3a51},{488,0x33b1400c028c4},{488,0x392d0240510b5},{488,0x3d6acab6c3d18},{488,0x436ce7a512f72},{488,0x4a610a05a6504},{488,0x4bdff0556f028},{488,0x5a00f828744a5},{488,0x5e92de6a8cf9c},{488,0x69429222e15bf},{488,0x708d0f84d3de7},{488,0x7a697a33e4d7a},{488,0x7abe66de389bc},{488,0x7bf775f0f3e90},{488,0x7e4b3fa6cb6ce},{488,0x875840fff19b4},{488,0x885d10ebc74f3},{488,0x9420d84e33661},{488,0x9448023fdc00b},{488,0x951a598efee66},{488,0xa6ae9432bc965},{488,0xbe2a54cf1af8b},{488,0xc0f220fb1c70d},{488,0xc1bf5689b0f24},{488,0xd4f6c87f6ffbe},{488,0xdcd018e0a54e3},{488,0xe876717597883},{488,0xe896b7fb2b0e9},{488,0xe97b589c69637},{488,0xecc9e86739fb4},{488,0xeed7457322689},{488,0xf7e0db3799aa2},{488,0xfb295f8ab57f6},{488,0xfbc706b30cce0},{488,0xfc0b8261a70ce},
{489,0x2bd8b1ffa014},{489,0x35e7b5183922},{489,0x1193034aa6471},{489,0x18acb4dbcbe95},{489,0x1960deb2dcca5},{489,0x1fdc2be859b36},{489,0x21773af7a3a51},{489,0x268863bf20371},{489,0x274ba5112f261},{489,0x2d996b27ff666},{489,0x4a610a05a6504},{489,0x4bdff0556f028},{489,0x57d45afe7b3aa},{489,0x5a00f828744a5},{489,0x69429222e15bf},{489,0x6a3c8f932ace9},{489,0x708d0f84d3de7},{489,0x7a697a33e4d7a},{489,0x7abe66de389bc},{489,0x7bf775f0f3e90},{489,0x875840fff19b4},{489,0x885d10ebc74f3},{489,0x951a598efee66},{489,0xa384a7f01240f},{489,0xa7b02159aa69c},{489,0xbe5bc824af3a5},{489,0xc0f220fb1c70d},{489,0xc1bf5689b0f24},{489,0xd1bb94065b9be},{489,0xd4f6c87f6ffbe},{489,0xdcd018e0a54e3},{489,0xe876717597883},{489,0xe97b589c69637},{489,0xecc9e86739fb4},{489,0xee9054cb8363d},{489,0xeed7457322689},{489,0xf7e0db3799aa2},{489,0xfb295f8ab57f6},
{490,0x2bd8b1ffa014},{490,0x35e7b5183922},{490,0xfcc96e65cde8},{490,0x1193034aa6471},{490,0x187bf33cc17c4},{490,0x1fdc2be859b36},{490,0x21773af7a3a51},{490,0x4044adf3ca40b},{490,0x48d257aadd8e4},{490,0x4a610a05a6504},{490,0x4d22d30e1f458},{490,0x52517d3eee7d3},{490,0x57d45afe7b3aa},{490,0x5a00f828744a5},{490,0x60dd21bb19664},{490,0x616f4661e12dd},{490,0x68fe2af35a862},{490,0x69e5e877b791d},{490,0x6a3c8f932ace9},{490,0x6b6bddb0b85b5},{490,0x708d0f84d3de7},{490,0x75fa99a657506},{490,0x7a697a33e4d7a},{490,0x7e1ecbc5d6528},{490,0x875840fff19b4},{490,0x90d1b9daf449c},{490,0x951a598efee66},{490,0x98ba96f161fa1},{490,0xa384a7f01240f},{490,0xa7b02159aa69c},{490,0xab7275e03e796},{490,0xafe54e2fa848b},{490,0xb637960530383},{490,0xbe5374ec8d32d},{490,0xbe5bc824af3a5},{490,0xc0f220fb1c70d},{490,0xc8ea841a4e2f6},{490,0xd379400fed247},{490,0xd4f6c87f6ffbe},{490,0xdcd018e0a54e3},{490,0xecc9e86739fb4},{490,0xee9054cb8363d},{490,0xf7e0db3799aa2},
{491,0x2bd8b1ffa014},{491,0xded374722873},{491,0x1193034aa6471},{491,0x187bf33cc17c4},{491,0x218cd2d13af42},{491,0x4044adf3ca40b},{491,0x40ffea04beb47},{491,0x43ebfaa3be368},{491,0x4d22d30e1f458},{491,0x52517d3eee7d3},{491,0x5536d63cd2358},{491,0x57d45afe7b3aa},{491,0x5d18e8f482cf9},{491,0x68fe2af35a862},{491,0x6b6bddb0b85b5},{491,0x76c4ea43f2a80},{491,0x7a697a33e4d7a},{491,0x7ae9bff2f264d},{491,0x90d1b9daf449c},{491,0x910ccdc6c7a0b},{491,0x98ba96f161fa1},{491,0xa384a7f01240f},{491,0xa7b02159aa69c},{491,0xa87eee77ef81c},{491,0xab7275e03e796},{491,0xb22c1e5ca8ee9},{491,0xb637960530383},{491,0xbe5374ec8d32d},{491,0xc8ea841a4e2f6},{491,0xd379400fed247},{491,0xd4f6c87f6ffbe},{491,0xdbfb2bcd8a8df},{491,0xdcd018e0a54e3},{491,0xeb9a1c1252c4f},{491,0xecc9e86739fb4},{491,0xee9054cb8363d},{491,0xf7e0db3799aa2},
{492,0x2bd8b1ffa014},{492,0xded374722873},{492,0x12641e58be566},{492,0x13349541f201c},{492,0x218cd2d13af42},{492,0x230aaf3260715},{492,0x2bfa30ae661b6},{492,0x2c9d4b6437375},{492,0x3f503979552e8},{492,0x4044adf3ca40b},{492,0x43ebfaa3be368},{492,0x45457ee24abd2},{492,0x4d22d30e1f458},{492,0x559e3ccbf4c18},{492,0x57d45afe7b3aa},{492,0x5d18e8f482cf9},{492,0x68fe2af35a862},{492,0x6b6bddb0b85b5},{492,0x76c4ea43f2a80},{492,0x781bf4164d36c},{492,0x7ae9bff2f264d},{492,0x7f0e95a1f221a},{492,0x809b67777358c},{492,0x90d1b9daf449c},{492,0x910ccdc6c7a0b},{492,0x9de66aedabf05},{492,0xa384a7f01240f},{492,0xa7b02159aa69c},{492,0xa87eee77ef81c},{492,0xb06f83157a182},{492,0xb9176ccf95853},{492,0xbe5374ec8d32d},{492,0xc8ea841a4e2f6},{492,0xd379400fed247},{492,0xd4f6c87f6ffbe},{492,0xdbfb2bcd8a8df},{492,0xecc9e86739fb4},{492,0xf79c5b0265d2d},{492,0xf7e0db3799aa2},
{493,0x2bd8b1ffa014},{493,0x8a5d94c530cb},{493,0x12641e58be566},{493,0x13349541f201c},{493,0x218cd2d13af42},{493,0x230aaf3260715},{493,0x351c3cab9cc88},{493,0x3f503979552e8},{493,0x4044adf3ca40b},{493,0x42ecd4460a6af},{493,0x45457ee24abd2},{493,0x4d22d30e1f458},{493,0x57d45afe7b3aa},{493,0x60dd21bb19664},{493,0x68fe2af35a862},{493,0x6b6bddb0b85b5},{493,0x6c015473ba9a3},{493,0x71d03bd9f4a98},{493,0x7ae9bff2f264d},{493,0x7b41f7a126cae},{493,0x7f0e95a1f221a},{493,0x8c8cafd7eb98d},{493,0x8cb6d7046a4f2},{493,0x9de66aedabf05},{493,0xa7b02159aa69c},{493,0xb7fe67a6f3707},{493,0xb9146a29dfbfd},{493,0xb9176ccf95853},{493,0xbe5374ec8d32d},{493,0xc8ea841a4e2f6},{493,0xcb319a06e237a},{493,0xd379400fed247},{493,0xf5062851b15c3},{493,0xf7e0db3799aa2},
{494,0x2bd8b1ffa014},{494,0x8a5d94c530cb},{494,0x12641e58be566},{494,0x126f09ae48438},{494,0x1af994ac12d14},{494,0x218cd2d13af42},{494,0x2611f56231d4b},{494,0x305fa676db6fb},{494,0x336928d9c2d8a},{494,0x340e33dd190b6},{494,0x3aec8902c00a5},{494,0x3c5753de06cae},{494,0x3f503979552e8},{494,0x409883759c287},{494,0x45457ee24abd2},{494,0x46784bd50c019},{494,0x5721d4ead2a1a},{494,0x57d45afe7b3aa},{494,0x68fe2af35a862},{494,0x73758a33567f8},{494,0x7ae9bff2f264d},{494,0x7f0e95a1f221a},{494,0x841d5ec9d1aef},{494,0x94e6f94cadc42},{494,0x9de66aedabf05},{494,0xa7b02159aa69c},{494,0xb039030134dbc},{494,0xbe5374ec8d32d},{494,0xbffcb5f716910},{494,0xc20597d3d9777},{494,0xcb319a06e237a},{494,0xd1ef474dece1e},{494,0xd84af64fae6da},{494,0xe68d9a1522eef},{494,0xeee169969b7df},{494,0xf07cb34e99a71},{494,0xf5062851b15c3},{494,0xf7e0db3799aa2},
{495,0x12641e58be566},{495,0x126f09ae48438},{495,0x1af994ac12d14},{495,0x1ce9a6d116ee5},{495,0x2a7afdd57ee66},{495,0x2be6165b0b556},{495,0x2c3ad0c7dbb2e},{495,0x336928d9c2d8a},{495,0x3aec8902c00a5},{495,0x3c5753de06cae},{495,0x3f503979552e8},{495,0x409883759c287},{495,0x40ce696028c40},{495,0x45457ee24abd2},{495,0x46784bd50c019},{495,0x4e33a9e68eaf6},{495,0x55a4b334e6ea4},{495,0x5801ba926e823},{495,0x5b504e2fbbe95},{495,0x61b6cc21936ec},{495,0x658fc73b81b02},{495,0x69306a27ea73b},{495,0x6a566936f3719},{495,0x73758a33567f8},{495,0x7ae9bff2f264d},{495,0x7f0e95a1f221a},{495,0x7f75fc3114ada},{495,0x841d5ec9d1aef},{495,0x8527f272f0f6d},{495,0x94e6f94cadc42},{495,0x9e932d0cf233a},{495,0xb039030134dbc},{495,0xbd8e8251b77e5},{495,0xbe5374ec8d32d},{495,0xc1c271be975c5},{495,0xd84af64fae6da},{495,0xdc54a73898088},{495,0xe6404bd8f699c},{495,0xe68d9a1522eef},{495,0xf07cb34e99a71},{495,0xf0856be462a59},{495,0xf5062851b15c3},{495,0xf7e0db3799aa2},
{496,0x1bb0aba23a34},{496,0x43825b7fd9aa},{496,0x11814074fdf0c},{496,0x189ea7ccf701e},{496,0x2c3ad0c7dbb2e},{496,0x37e03e5be4d1c},{496,0x38a7b43a9e5f2},{496,0x3c5753de06cae},{496,0x3e92de9f17c77},{496,0x409883759c287},{496,0x40ce696028c40},{496,0x45457ee24abd2},{496,0x49bc94646cb64},{496,0x4f265369c39e2},{496,0x516b25153b78c},{496,0x55a4b334e6ea4},{496,0x5801ba926e823},{496,0x59ad22a6a2629},{496,0x658fc73b81b02},{496,0x69306a27ea73b},{496,0x6a566936f3719},{496,0x71ec55f79e786},{496,0x7ae9bff2f264d},{496,0x7f75fc3114ada},{496,0x841d5ec9d1aef},{496,0x8527f272f0f6d},{496,0x93930ec55f8bb},{496,0x9e932d0cf233a},{496,0xa87201a60b304},{496,0xb039030134dbc},{496,0xb1c925540a15c},{496,0xb5b795ebaa853},{496,0xb6a4e36866e9d},{496,0xb9146a29dfbfd},{496,0xbdabc9e8e9635},{496,0xbe5374ec8d32d},{496,0xbfca0d12c87ae},{496,0xc1e43171a4a11},{496,0xd31e80e806956},{496,0xdc54a73898088},{496,0xe68d9a1522eef},{496,0xf7e0db3799aa2},{496,0xfd30eda805b80},{496,0xff6dd7639a703},
{497,0x8d338e046543},{497,0xe455a52a6c05},{497,0x180f1e0984780},{497,0x189ea7ccf701e},{497,0x192e9ee706e4a},{497,0x1ece45eba5c04},{497,0x2c3ad0c7dbb2e},{497,0x2ef21357a0df8},{497,0x3053c9ef60c77},{497,0x3462095eeaf32},{497,0x38a7b43a9e5f2},{497,0x3a1bc91cf5ce5},{497,0x3c5753de06cae},{497,0x3e92de9f17c77},{497,0x409883759c287},{497,0x40ce696028c40},{497,0x40efc1fe614e9},{497,0x4309f42139c09},{497,0x442ac240e7a4d},{497,0x45457ee24abd2},{497,0x55a4b334e6ea4},{497,0x560e9f36fa6f5},{497,0x5b98ea6cf49ac},{497,0x658fc73b81b02},{497,0x71ec55f79e786},{497,0x72c14fa06275e},{497,0x78c8b635937a1},{497,0x7ae9bff2f264d},{497,0x7f75fc3114ada},{497,0x841d5ec9d1aef},{497,0xb039030134dbc},{497,0xb1c925540a15c},{497,0xd31e80e806956},{497,0xd7e6f3a442968},{497,0xe68d9a1522eef},{497,0xf02b9f8a1ee5e},{497,0xf7e0db3799aa2},{497,0xfb4c3ce913c7c},{497,0xfd30eda805b80},{497,0xff47deec18565},
{498,0x8d338e046543},{498,0xe23a1e0c1095},{498,0x189ea7ccf701e},{498,0x1ece45eba5c04},{498,0x23c85d924bf0b},{498,0x2c3ad0c7dbb2e},{498,0x2ef21357a0df8},{498,0x3053c9ef60c77},{498,0x38a7b43a9e5f2},{498,0x3901d1841863f},{498,0x3a1bc91cf5ce5},{498,0x3e92de9f17c77},{498,0x409883759c287},{498,0x40ce696028c40},{498,0x45457ee24abd2},{498,0x4cf8e84d3651a},{498,0x506f34a79fabf},{498,0x55a4b334e6ea4},{498,0x5f6f8cec48337},{498,0x658fc73b81b02},{498,0x7f75fc3114ada},{498,0x841d5ec9d1aef},{498,0x883fc18248560},{498,0x93c386d877bd5},{498,0x9eed5ec5980ee},{498,0xa2efe8443485a},{498,0xa514eafa9e04d},{498,0xba247f29f84a7},{498,0xbd2bcbab466a8},{498,0xc87daee7112b2},{498,0xd31e80e806956},{498,0xd7e6f3a442968},{498,0xe68d9a1522eef},{498,0xeed987c580205},{498,0xf02b9f8a1ee5e},{498,0xf1b13d18eaebc},{498,0xf7e0db3799aa2},{498,0xfb4c3ce913c7c},{498,0xfd30eda805b80},
{499,0x8d338e046543},{499,0xe23a1e0c1095},{499,0x17bcce0d60719},{499,0x189ea7ccf701e},{499,0x192e9ee706e4a},{499,0x1ece45eba5c04},{499,0x20ea85322f5c1},{499,0x2c3ad0c7dbb2e},{499,0x38a7b43a9e5f2},{499,0x3a1bc91cf5ce5},{499,0x3e92de9f17c77},{499,0x40ad78d610a26},{499,0x45457ee24abd2},{499,0x506f34a79fabf},{499,0x55a7ee695ffea},{499,0x55e190923d6cf},{499,0x658fc73b81b02},{499,0x841d5ec9d1aef},{499,0x883fc18248560},{499,0x89683f7016aa6},{499,0x97b6cccefd31f},{499,0x9eed5ec5980ee},{499,0xa2efe8443485a},{499,0xa34a058dae8a7},{499,0xa514eafa9e04d},{499,0xa5c5ee5a8a56f},{499,0xa5c5ee5a8a570},{499,0xa64d86d8716d1},{499,0xa851b19950648},{499,0xac80cdbcac87d},{499,0xbd2bcbab466a8},{499,0xc0104e5cf1001},{499,0xd31e80e806956},{499,0xd7e6f3a442968},{499,0xde6b309ee7ea5},{499,0xe695ae1851a1e},{499,0xeed987c580205},{499,0xfa171bb2e2549},{499,0xfb4c3ce913c7c},{499,0xfd30eda805b80},
{500,0x8d338e046543},{500,0xe23a1e0c1095},{500,0x189ea7ccf701e},{500,0x192e9ee706e4a},{500,0x20ea85322f5c1},{500,0x2c2aa8c17e4d0},{500,0x2e4551385a9c3},{500,0x3a1bc91cf5ce5},{500,0x3e92de9f17c77},{500,0x45457ee24abd2},{500,0x49208055495c2},{500,0x506f34a79fabf},{500,0x538703b6f70b2},{500,0x569a46c8d8f6c},{500,0x57386158fc187},{500,0x5f7a46a0c89dd},{500,0x61ed36bb31f0e},{500,0x697438ddd7df5},{500,0x841d5ec9d1aef},{500,0x883fc18248560},{500,0x89683f7016aa6},{500,0x8e7f079effd8e},{500,0x96e4421b4001b},{500,0x97b6cccefd31f},{500,0x9eef333f0b2d3},{500,0xa34a058dae8a7},{500,0xa87a15a939e33},{500,0xb1605a71c3b41},{500,0xbd2bcbab466a8},{500,0xbf1a3d3e5a01c},{500,0xd7e6f3a442968},{500,0xd9f41b1cc5f13},{500,0xde6b309ee7ea5},{500,0xe51dd0e21ae00},{500,0xec1196144c102},{500,0xeed987c580205},{500,0xf9bc341360a2f},{500,0xfb4c3ce913c7c},{500,0xfd30eda805b80},
{501,0x34ef35942962},{501,0xe23a1e0c1095},{501,0x21df895f7a9ff},{501,0x2477916d404c5},{501,0x26f05846a99e1},{501,0x2ba2111b0532c},{501,0x43c054b3da0e3},{501,0x46d33091a37a0},{501,0x49208055495c2},{501,0x506f34a79fabf},{501,0x61ed36bb31f0e},{501,0x669eef8f8d859},{501,0x6de3629c9fb09},{501,0x841d5ec9d1aef},{501,0x883fc18248560},{501,0x89683f7016aa6},{501,0x96e4421b4001b},{501,0x97b6cccefd31f},{501,0x9cea152fba43b},{501,0xa308f48f3e1c6},{501,0xa34a058dae8a7},{501,0xbcbf8c4d6e3ff},{501,0xcc6f8a9a4e7cd},{501,0xceca655771026},{501,0xd7e6f3a442968},{501,0xeed987c580205},{501,0xf9bc341360a2f},{501,0xfd30eda805b80},
{502,0x971e90c6574a},{502,0x9e490d276ff9},{502,0x1628e56e417eb},{502,0x17ba8f7fac3d0},{502,0x26f05846a99e1},{502,0x2ba2111b0532c},{502,0x43c054b3da0e3},{502,0x446ec780edc77},{502,0x46d33091a37a0},{502,0x49208055495c2},{502,0x506f34a79fabf},{502,0x531ccb8f560af},{502,0x61ed36bb31f0e},{502,0x63e0cb7d776b6},{502,0x652ccf845a419},{502,0x67a6b87f944e7},{502,0x883fc18248560},{502,0x89683f7016aa6},{502,0x96e4421b4001b},{502,0xa2020f1cd4990},{502,0xa308f48f3e1c6},{502,0xa34a058dae8a7},{502,0xb792e17f7c5fe},{502,0xb7fef6c434262},{502,0xc17319a887cc2},{502,0xceca655771026},{502,0xcf997e626d288},{502,0xddecc6b8bcd87},{502,0xdef188e2cbf58},{502,0xe665360539704},{502,0xf2f51d8f262dd},{502,0xfc6ff81d101ef},{502,0xfd30eda805b80},
{503,0x36c15f7eb32b},{503,0x1628e56e417eb},{503,0x17ba8f7fac3d0},{503,0x26f05846a99e1},{503,0x2cf49d110dc67},{503,0x3be3f9b78b581},{503,0x43862c71ea70c},{503,0x46d33091a37a0},{503,0x4b346af772d2e},{503,0x531ccb8f560af},{503,0x56317be692951},{503,0x5f7a46a0c89dd},{503,0x67a6b87f944e7},{503,0x746a9fd73c098},{503,0x74da14af3e033},{503,0x7dc2919b0f4b7},{503,0x883fc18248560},{503,0x89683f7016aa6},{503,0x96e4421b4001b},{503,0xa2020f1cd4990},{503,0xa308f48f3e1c6},{503,0xa34a058dae8a7},{503,0xb758d848fac54},{503,0xb792e17f7c5fe},{503,0xb7fef6c434262},{503,0xba688469fe6d1},{503,0xcf997e626d288},{503,0xe665360539704},{503,0xedd2a253169cf},{503,0xfd30eda805b80},
{504,0x9dd75f71bcf7},{504,0x14c9e46b6ac91},{504,0x152e371f4a686},{504,0x17ba8f7fac3d0},{504,0x21879ad1e2b2a},{504,0x218ec13fa7a29},{504,0x22e44545012bd},{504,0x26f05846a99e1},{504,0x2cf49d110dc67},{504,0x2f264351136e8},{504,0x373b4b668febd},{504,0x3b8db6ed3e2ca},{504,0x3be3f9b78b581},{504,0x4982a236bc13f},{504,0x5640589d33fd8},{504,0x590c262782560},{504,0x5f7a46a0c89dd},{504,0x735fffcc81965},{504,0x768a9561c67f7},{504,0x7dc2919b0f4b7},{504,0x86d37296ca126},{504,0x9409049c0aa8d},{504,0x965853b1c4555},{504,0xa13f75f4d2824},{504,0xa2020f1cd4990},{504,0xa308f48f3e1c6},{504,0xa8a663429f376},{504,0xb18773d64ed24},{504,0xb8cdc6bfa0e0c},{504,0xba688469fe6d1},{504,0xcf05e31092fba},{504,0xcf997e626d288},{504,0xcfef85a4960a0},{504,0xe348211d13d90},{504,0xe665360539704},{504,0xec84524ad7251},{504,0xedd2a253169cf},{504,0xfd30eda805b80},
{505,0x1e0f47b2fa033},{505,0x218ec13fa7a29},{505,0x22e44545012bd},{505,0x26f05846a99e1},{505,0x2741af285ab48},{505,0x2af06a5b3566e},{505,0x300778eed7324},{505,0x373b4b668febd},{505,0x3be3f9b78b581},{505,0x4982a236bc13f},{505,0x55ae092d5dd36},{505,0x6891b9fbcb534},{505,0x735fffcc81965},{505,0x768a9561c67f7},{505,0x7dc2919b0f4b7},{505,0x843a1126e0b72},{505,0x86d37296ca126},{505,0x9409049c0aa8d},{505,0x965853b1c4555},{505,0x9aff88d82ff73},{505,0x9de679532e8b8},{505,0xa13f75f4d2824},{505,0xa2020f1cd4990},{505,0xa8a663429f376},{505,0xb18773d64ed24},{505,0xba688469fe6d1},{505,0xc433a2910704a},{505,0xc449d7cf8eab1},{505,0xcc2aa5915da2c},{505,0xcd507cb3074f2},{505,0xcf997e626d288},{505,0xcfef85a4960a0},{505,0xd33eded9e6dac},{505,0xdaff5a33d34c6},{505,0xe665360539704},{505,0xec1823edec823},{505,0xed9b3dbf8f803},{505,0xedd2a253169cf},{505,0xf1cb11d69f942},{505,0xf23b5bed5900d},{505,0xfd30eda805b80},
{506,0xae45b698552d},{506,0x13f7a84c503c0},{506,0x152e371f4a686},{506,0x1b6b89403b23f},{506,0x1e0f47b2fa033},{506,0x2af06a5b3566e},{506,0x300778eed7324},{506,0x373b4b668febd},{506,0x3be3f9b78b581},{506,0x41938a01b86e9},{506,0x4982a236bc13f},{506,0x55ae092d5dd36},{506,0x5a7eee80cf9ba},{506,0x6891b9fbcb534},{506,0x6904c405d5e5a},{506,0x6c3be60e7c382},{506,0x7c5b7ede4df7e},{506,0x7dc2919b0f4b7},{506,0x843a1126e0b72},{506,0x86d37296ca126},{506,0x94bf9bbb8d6c2},{506,0x9aff88d82ff73},{506,0x9fc552aeef9c9},{506,0xa2020f1cd4990},{506,0xb18773d64ed24},{506,0xb758d848fac54},{506,0xc449d7cf8eab1},{506,0xcc2aa5915da2c},{506,0xcd507cb3074f2},{506,0xd54c6c4b203a7},{506,0xd6f8eb6213e5d},{506,0xdaff5a33d34c6},{506,0xe0b2481c865e5},{506,0xe665360539704},{506,0xec1823edec823},{506,0xedd2a253169cf},{506,0xf1cb11d69f942},{506,0xf23b5bed5900d},{506,0xf6d3019e216c5},{506,0xf77dffbf52a61},{506,0xfd30eda805b80},
{507,0xae45b698552d},{507,0x13f7a84c503c0},{507,0x152e371f4a686},{507,0x1ca458285ea0c},{507,0x373b4b668febd},{507,0x452596e0bb1db},{507,0x4982a236bc13f},{507,0x4c61cfd26eb1a},{507,0x5a79c4e71d027},{507,0x5a7eee80cf9ba},{507,0x5ad084696d644},{507,0x663942bca15f5},{507,0x6891b9fbcb534},{507,0x6904c405d5e5a},{507,0x7a633cd5e4c6b},{507,0x7c5b7ede4df7e},{507,0x85836991553f5},{507,0x86d37296ca126},{507,0x8a7124a88db7c},{507,0x90e7788f64d40},{507,0x94bf9bbb8d6c2},{507,0x9aff88d82ff73},{507,0x9fc552aeef9c9},{507,0xa0f18e4e84968},{507,0xa2020f1cd4990},{507,0xaf1bfaa136119},{507,0xb18773d64ed24},{507,0xb69c544e01c15},{507,0xb758d848fac54},{507,0xbe80b4a853f2b},{507,0xc449d7cf8eab1},{507,0xd70d2aa1c75ce},{507,0xdaff5a33d34c6},{507,0xe0b2481c865e5},{507,0xe510e076c236a},{507,0xe665360539704},{507,0xec1823edec823},{507,0xedd2a253169cf},{507,0xf1cb11d69f942},{507,0xf23b5bed5900d},{507,0xf328d58b70877},{507,0xf6d3019e216c5},{507,0xf77dffbf52a61},
{508,0x7fd6aee86be8},{508,0x8bb19ac981e7},{508,0xae45b698552d},{508,0xc83c75865541},{508,0xef4a865f1436},{508,0x13f7a84c503c0},{508,0x1401fb7fb56e6},{508,0x152e371f4a686},{508,0x2b4e2024ead66},{508,0x373b4b668febd},{508,0x440b0cb81e243},{508,0x452596e0bb1db},{508,0x4982a236bc13f},{508,0x4e06a7746ab88},{508,0x5a79c4e71d027},{508,0x5ad084696d644},{508,0x6904c405d5e5a},{508,0x7b56855b84f7f},{508,0x7c5b7ede4df7e},{508,0x7f5f91a2df2a7},{508,0x86d37296ca126},{508,0x9352353c3d52a},{508,0x94bf9bbb8d6c2},{508,0x9aff88d82ff73},{508,0x9be34ac46b18f},{508,0xa0f18e4e84968},{508,0xaf1bfaa136119},{508,0xb18773d64ed24},{508,0xbe80b4a853f2b},{508,0xc449d7cf8eab1},{508,0xcfc638d701408},{508,0xd0cd3d8524d1d},{508,0xd89dc3040fecb},{508,0xdaff5a33d34c6},{508,0xdba9d9e067cdb},{508,0xe510e076c236a},{508,0xe665360539704},{508,0xe7b8625118ac8},{508,0xec1823edec823},{508,0xedd2a253169cf},{508,0xf23b5bed5900d},{508,0xf328d58b70877},{508,0xf77dffbf52a61},
{509,0x2dea94289297},{509,0xc83c75865541},{509,0xef4a865f1436},{509,0x1297872d9cbb4},{509,0x13f7a84c503c0},{509,0x152e371f4a686},{509,0x1ba9d8a3f59ca},{509,0x2b4e2024ead66},{509,0x373b4b668febd},{509,0x4982a236bc13f},{509,0x5440362dc3dd8},{509,0x5a79c4e71d027},{509,0x6904c405d5e5a},{509,0x6c158ac6d4b1f},{509,0x6f854ac8270db},{509,0x72b2f67d93967},{509,0x7c5b7ede4df7e},{509,0x86d37296ca126},{509,0x897292a37bdcc},{509,0x94bf9bbb8d6c2},{509,0x998bc3f596779},{509,0x9be34ac46b18f},{509,0x9fc552aeef9c9},{509,0xaf1bfaa136119},{509,0xb8cd76c81c15a},{509,0xd89dc3040fecb},{509,0xdaff5a33d34c6},{509,0xdba9d9e067cdb},{509,0xe510e076c236a},{509,0xe665360539704},{509,0xedd2a253169cf},{509,0xf00cdf1451892},{509,0xf328d58b70877},{509,0xf77dffbf52a61},
{510,0xc83c75865541},{510,0xe223c94f33ff},{510,0xef4a865f1436},{510,0x13f7a84c503c0},{510,0x152e371f4a686},{510,0x1ba9d8a3f59ca},{510,0x1f5d4ece08832},{510,0x31c72c1bfbdbc},{510,0x3377a8fe8fa80},{510,0x3b3d2e86b1807},{510,0x4982a236bc13f},{510,0x53ceb74871f49},{510,0x5440362dc3dd8},{510,0x5a79c4e71d027},{510,0x5e1acc5a27d53},{510,0x642f154fb7e11},{510,0x66628f8a3628d},{510,0x6904c405d5e5a},{510,0x6f854ac8270db},{510,0x73c935b500981},{510,0x86d37296ca126},{510,0x94bf9bbb8d6c2},{510,0x9be34ac46b18f},{510,0x9fc552aeef9c9},{510,0xa6d14d3946c4f},{510,0xab92ec91be736},{510,0xac16d75a609a1},{510,0xaf1bfaa136119},{510,0xb8cd76c81c15a},{510,0xb914c37cd3322},{510,0xc2663d67ef7aa},{510,0xdaff5a33d34c6},{510,0xe0892c8fd247c},{510,0xe510e076c236a},{510,0xedd2a253169cf},{510,0xf328d58b70877},{510,0xf77dffbf52a61},
{511,0xe223c94f33ff},{511,0xef4a865f1436},{511,0x13f7a84c503c0},{511,0x152e371f4a686},{511,0x1f5d4ece08832},{511,0x31c72c1bfbdbc},{511,0x344e00be08213},{511,0x34ea78135052b},{511,0x44310969ef346},{511,0x53ceb74871f49},{511,0x549a05fc5ad40},{511,0x5a79c4e71d027},{511,0x5e1acc5a27d53},{511,0x6404b5f1623ac},{511,0x642f154fb7e11},{511,0x66628f8a3628d},{511,0x6d8fa6fba7731},{511,0x6f854ac8270db},{511,0x7a63da4c29481},{511,0x80a5891031e3b},{511,0x9487e86ce40eb},{511,0x94bf9bbb8d6c2},{511,0x9be34ac46b18f},{511,0xa6d14d3946c4f},{511,0xa900dbd1673f0},{511,0xab92ec91be736},{511,0xac16d75a609a1},{511,0xb2db34c37a0d3},{511,0xb914c37cd3322},{511,0xc8d94340718f7},{511,0xccfd11625ba63},{511,0xdcc29c4d98201},{511,0xe0892c8fd247c},{511,0xedd2a253169cf},{511,0xf77dffbf52a61},{511,0xf826c28b4ca74},{511,0xf908947632b5e},{511,0xfeb9dcf9ad81a},
{512,0xef4a865f1436},{512,0x13f7a84c503c0},{512,0x1eb928298fa0b},{512,0x1f5d4ece08832},{512,0x20762958a4bcd},{512,0x31c72c1bfbdbc},{512,0x344e00be08213},{512,0x34ea78135052b},{512,0x397caf2ba9bf1},{512,0x4763e2d29291d},{512,0x53ceb74871f49},{512,0x58f4c1d14ce4e},{512,0x5a79c4e71d027},{512,0x5eeeae964b40e},{512,0x6404b5f1623ac},{512,0x6866e16bddb5d},{512,0x6d8fa6fba7731},{512,0x6f854ac8270db},{512,0x72e110968aa9a},{512,0x74f4928a282ae},{512,0x80a5891031e3b},{512,0x8958c2a2feded},{512,0x8e8cbcb71ab67},{512,0x93bb6b24bc545},{512,0xa0294426a5efc},{512,0xa6d14d3946c4f},{512,0xa95043b934d4e},{512,0xab92ec91be736},{512,0xac16d75a609a1},{512,0xc12d455ffd55d},{512,0xc54bf7d470967},{512,0xd93e59d4afff3},{512,0xdbc3a9e0e4cba},{512,0xedd2a253169cf},{512,0xee9bd181076ef},{512,0xf77dffbf52a61},
{513,0x16e0ebac2ef9},{513,0x13f7a84c503c0},{513,0x1eb928298fa0b},{513,0x1f5d4ece08832},{513,0x31c72c1bfbdbc},{513,0x3a2dbfa8ca4fa},{513,0x4763e2d29291d},{513,0x4ea8acbf97044},{513,0x50eed3dcd7ca2},{513,0x53ceb74871f49},{513,0x5a79c4e71d027},{513,0x5eeeae964b40e},{513,0x6404b5f1623ac},{513,0x6866e16bddb5d},{513,0x6d8fa6fba7731},{513,0x6f854ac8270db},{513,0x74f4928a282ae},{513,0x771a9805ecab6},{513,0x77dda9169a83d},{513,0xa5de185c32319},{513,0xa6d14d3946c4f},{513,0xa95043b934d4e},{513,0xab92ec91be736},{513,0xac16d75a609a1},{513,0xad0cc33744e4a},{513,0xc04067d5789c3},{513,0xc12d455ffd55d},{513,0xc5ef4b776718d},{513,0xd77ff3d989f96},{513,0xd93e59d4afff3},{513,0xed3ec36d4926a},{513,0xedd2a253169cf},{513,0xf3614a062a0b2},{513,0xf77dffbf52a61},{513,0xfd1820efcf293},
{514,0x16e0ebac2ef9},{514,0x5572a2a68f91},{514,0x167cf85885087},{514,0x17ad2d9f38784},{514,0x184b42348a161},{514,0x1f5d4ece08832},{514,0x2572c1d8b4970},{514,0x28bbdfb452fff},{514,0x31c72c1bfbdbc},{514,0x369cdad219e05},{514,0x3a2dbfa8ca4fa},{514,0x4763e2d29291d},{514,0x4d65f810e8e0b},{514,0x4ea8acbf97044},{514,0x5a79c4e71d027},{514,0x5f3f3d6c3f9ea},{514,0x6404b5f1623ac},{514,0x68ca2e7684d6f},{514,0x6d8fa6fba7731},{514,0x6f854ac8270db},{514,0x771a9805ecab6},{514,0x77dda9169a83d},{514,0x8225161824676},{514,0x890d3917dcd5e},{514,0x8cdf015fec86b},{514,0x993d0d4124171},{514,0xa5de185c32319},{514,0xa6d14d3946c4f},{514,0xac16d75a609a1},{514,0xc12d455ffd55d},{514,0xc5ef4b776718d},{514,0xca4890548070a},{514,0xcb15560042092},{514,0xce58c6dfaf700},{514,0xd688026ca0de8},{514,0xd77ff3d989f96},{514,0xd93e59d4afff3},{514,0xe48136a716f92},{514,0xee49111858f9c},{514,0xf3614a062a0b2},{514,0xfeff958ee1aaf},
{515,0x5572a2a68f91},{515,0xf98e1e937254},{515,0x24e350c900ba7},{515,0x28bbdfb452fff},{515,0x2d10b995acbb0},{515,0x31c72c1bfbdbc},{515,0x4763e2d29291d},{515,0x5f3f3d6c3f9ea},{515,0x634237c533277},{515,0x6404b5f1623ac},{515,0x68ca2e7684d6f},{515,0x7688f7849f885},{515,0x771a9805ecab6},{515,0x77dda9169a83d},{515,0x7c3c6f79b39a9},{515,0x8225161824676},{515,0x86d32ff330be7},{515,0x8cdf015fec86b},{515,0x9237be92983ea},{515,0x9798eca7b4a60},{515,0x993d0d4124171},{515,0xa6d14d3946c4f},{515,0xa76064d411795},{515,0xc12d455ffd55d},{515,0xcb15560042092},{515,0xce58c6dfaf700},{515,0xd77ff3d989f96},{515,0xe0dd0872ecbd9},{515,0xe8dffd0a300fe},{515,0xee49111858f9c},{515,0xf5fc50337b542},
{516,0x2a6b2dce4944},{516,0x5572a2a68f91},{516,0xc34e69652532},{516,0xf98e1e937254},{516,0x13f8c02ea102f},{516,0x170984ef5dfc8},{516,0x2f6bf2d8d44b6},{516,0x31c72c1bfbdbc},{516,0x4763e2d29291d},{516,0x595fd912d1e20},{516,0x5f14ad485e23d},{516,0x5f3f3d6c3f9ea},{516,0x6404b5f1623ac},{516,0x64c9817dea65a},{516,0x6a1c94020ccf9},{516,0x771a9805ecab6},{516,0x77dda9169a83d},{516,0x7c3c6f79b39a9},{516,0x8cdf015fec86b},{516,0x9237be92983ea},{516,0xa6d14d3946c4f},{516,0xa76064d411795},{516,0xad0cc33744e4a},{516,0xb0cd49e0afbad},{516,0xb4dbd936111c0},{516,0xbbd4854c72227},{516,0xc12d455ffd55d},{516,0xd1927527350ae},{516,0xe0227043fde26},{516,0xe7c84b7169ca3},{516,0xf7038188b2612},
{517,0x2a6b2dce4944},{517,0x5572a2a68f91},{517,0x76f6e112fb6f},{517,0xc27fa028b0ee},{517,0xc34e69652532},{517,0xf98e1e937254},{517,0x13f8c02ea102f},{517,0x2f6bf2d8d44b6},{517,0x31c72c1bfbdbc},{517,0x3b4ca1c83208c},{517,0x3c6c9cc58f9bd},{517,0x4df630a7b95e6},{517,0x5f14ad485e23d},{517,0x5f3f3d6c3f9ea},{517,0x6404b5f1623ac},{517,0x64a5cf12be114},{517,0x64c9817dea65a},{517,0x6a7e55b376a77},{517,0x776b2ad05c481},{517,0x77dda9169a83d},{517,0x7b24bde0ed54e},{517,0x87067abf33f08},{517,0x8cdf015fec86b},{517,0x9237be92983ea},{517,0x924f59e17b7cb},{517,0xa389cbe454ad5},{517,0xa5052b90e9e8f},{517,0xa6d14d3946c4f},{517,0xa88e0175a5418},{517,0xad0cc33744e4a},{517,0xb4dbd936111c0},{517,0xb70f0cc74f864},{517,0xbbd4854c72227},{517,0xc74ccc5558479},{517,0xdd5165fa49719},{517,0xdfedc31fc7025},{517,0xe7c84b7169ca3},{517,0xea1f293c8b645},{517,0xeb0f603bbc9b4},{517,0xf022cc2d626d0},
{518,0x2a6b2dce4944},{518,0x4abf1f1786c6},{518,0x76f6e112fb6f},{518,0xf98e1e937254},{518,0x13f8c02ea102f},{518,0x14336a7861266},{518,0x20f77c4bcda60},{518,0x316e0b9bfc155},{518,0x31c72c1bfbdbc},{518,0x3c6c9cc58f9bd},{518,0x3d8f4a6bc1ada},{518,0x3f45030b8e313},{518,0x455ecfe5123d1},{518,0x4df630a7b95e6},{518,0x5bc146097ad82},{518,0x5f3f3d6c3f9ea},{518,0x6404b5f1623ac},{518,0x64a5cf12be114},{518,0x6a7e55b376a77},{518,0x6bfcfa273cc67},{518,0x71e3cdc96b315},{518,0x77dda9169a83d},{518,0x7d54211279e04},{518,0x8cdf015fec86b},{518,0x9237be92983ea},{518,0x9714d2669e18d},{518,0xa5052b90e9e8f},{518,0xa6d14d3946c4f},{518,0xa711ef96f6cf9},{518,0xa88e0175a5418},{518,0xaae93ab8ccd1e},{518,0xb51833ad1afc2},{518,0xb70f0cc74f864},{518,0xb790732127350},{518,0xc016c4d6ae82a},{518,0xc74ccc5558479},{518,0xdd5165fa49719},{518,0xe51f08c40dbc9},{518,0xe598e83fdd3ed},{518,0xe7c84b7169ca3},{518,0xea1f293c8b645},{518,0xeb0f603bbc9b4},{518,0xeee4a1c1ae008},{518,0xf022cc2d626d0},
{519,0x2a6b2dce4944},{519,0x3b590ba03dca},{519,0x4abf1f1786c6},{519,0x76f6e112fb6f},{519,0xc27fa028b0ee},{519,0xc4dbba521547},{519,0xf98e1e937254},{519,0x13f8c02ea102f},{519,0x1f4ac8aadcc3c},{519,0x2769a871e1246},{519,0x2f33fc732fb63},{519,0x316e0b9bfc155},{519,0x35b13476bfbc2},{519,0x3b9d7bf9ea153},{519,0x4f42203be6e7e},{519,0x64a5cf12be114},{519,0x6a7e55b376a77},{519,0x77dda9169a83d},{519,0x8cdf015fec86b},{519,0x8e2cfa4f88cd5},{519,0x9237be92983ea},{519,0x923bf703d0966},{519,0x96938dab3e03a},{519,0xa5052b90e9e8f},{519,0xa711ef96f6cf9},{519,0xaef02d004b25a},{519,0xb51833ad1afc2},{519,0xb70f0cc74f864},{519,0xb9dc7a5de150e},{519,0xc016c4d6ae82a},{519,0xe51f08c40dbc9},{519,0xe7c84b7169ca3},{519,0xeb0f603bbc9b4},{519,0xedcf3fb8a6bb5},{519,0xfca45f10eaf13},{519,0xfee1bef206b73},
{520,0x2a6b2dce4944},{520,0x573c6f5adfb5},{520,0xc27fa028b0ee},{520,0xc4dbba521547},{520,0xf98e1e937254},{520,0x108ca0e0d629c},{520,0x1f4ac8aadcc3c},{520,0x1ffc49dcd53a9},{520,0x2769a871e1246},{520,0x29eb2134f511c},{520,0x2b58c7268b4f7},{520,0x316e0b9bfc155},{520,0x37a767ffe9e5b},{520,0x3b9d7bf9ea153},{520,0x4d1da82f3ea4d},{520,0x4d4fd6bedf18a},{520,0x4f31f8832dd2a},{520,0x4f42203be6e7e},{520,0x5c8d512b3db5a},{520,0x64a5cf12be114},{520,0x6f3c5a9c98555},{520,0x77dda9169a83d},{520,0x884e8f9fc5fa1},{520,0x89aeaf7da71fe},{520,0x8cdf015fec86b},{520,0x8f9ea5aa51685},{520,0x96938dab3e03a},{520,0xa5052b90e9e8f},{520,0xa711ef96f6cf9},{520,0xb70f0cc74f864},{520,0xc27977585875a},{520,0xc63fb6cc0f9af},{520,0xcf1c99a4bc89c},{520,0xd4ffa345a1def},{520,0xd545f584735a1},{520,0xe77a4207354cf},{520,0xeb0f603bbc9b4},{520,0xedcf3fb8a6bb5},{520,0xef06c0eea3979},{520,0xfca45f10eaf13},{520,0xfee1bef206b73},
{521,0xa0f913bcebe6},{521,0x108ca0e0d629c},{521,0x11658c03b127d},{521,0x1ffc49dcd53a9},{521,0x29eb2134f511c},{521,0x2dacf942dc70c},{521,0x37a767ffe9e5b},{521,0x3b9d7bf9ea153},{521,0x4d1da82f3ea4d},{521,0x61e5514829318},{521,0x6290151a9e84f},{521,0x69355b5ec10f8},{521,0x8266e70dbe22f},{521,0x884e8f9fc5fa1},{521,0x9325b3b1f3edd},{521,0xa5052b90e9e8f},{521,0xa711ef96f6cf9},{521,0xb70f0cc74f864},{521,0xbf1eb09ed9f6a},{521,0xc27977585875a},{521,0xc63fb6cc0f9af},{521,0xd4ffa345a1def},{521,0xdaf865dcab1ec},{521,0xe4ee83cf2c8fa},{521,0xe77a4207354cf},{521,0xeea3ff63fdf5e},{521,0xf6caf4c4c4bbf},{521,0xfca45f10eaf13},{521,0xfee1bef206b73},
{522,0x11658c03b127d},{522,0x1c54bf309bfba},{522,0x1d5049ce5f7ca},{522,0x29eb2134f511c},{522,0x2dacf942dc70c},{522,0x354ee5190cc05},{522,0x3602cb8453630},{522,0x3b9d7bf9ea153},{522,0x3e6f78e30521b},{522,0x6290151a9e84f},{522,0x69355b5ec10f8},{522,0x8823a57adbef8},{522,0x884e8f9fc5fa1},{522,0x8dd600e50bd62},{522,0x9a9d36d3e4eed},{522,0xa711ef96f6cf9},{522,0xbf1eb09ed9f6a},{522,0xc27977585875a},{522,0xc2d6692113644},{522,0xc60039b311af9},{522,0xc63fb6cc0f9af},{522,0xd4ffa345a1def},{522,0xd6dcfc69a273f},{522,0xdaf865dcab1ec},{522,0xeb0f9b6e41d9b},{522,0xf6caf4c4c4bbf},{522,0xfee1bef206b73},
{523,0x9ec3190333c},{523,0x757f1ffee2a5},{523,0x11658c03b127d},{523,0x1544f226fc22c},{523,0x29eb2134f511c},{523,0x2dacf942dc70c},{523,0x3602cb8453630},{523,0x3b9d7bf9ea153},{523,0x4f31f8832dd2a},{523,0x5144f996a35b1},{523,0x61f605ccd807a},{523,0x671d7ad593f4b},{523,0x7c3e216e55ec5},{523,0x7d219743c3f14},{523,0x8823a57adbef8},{523,0x884e8f9fc5fa1},{523,0x8dd600e50bd62},{523,0x9325b3b1f3edd},{523,0x9a9d36d3e4eed},{523,0xa67a58c1f2e66},{523,0xa929d02023ea6},{523,0xac0cfe9037880},{523,0xaea71972b3ec8},{523,0xb5a2712e7cc1f},{523,0xbbc0129509d11},{523,0xc27977585875a},{523,0xc29bc6879dfcc},{523,0xc2d6692113644},{523,0xc63fb6cc0f9af},{523,0xca67083374513},{523,0xce8e599ad9077},{523,0xd4ffa345a1def},{523,0xda9a53bb38912},{523,0xeb0f9b6e41d9b},{523,0xf6caf4c4c4bbf},{523,0xfee1bef206b73},
{524,0x11658c03b127d},{524,0x1544f226fc22c},{524,0x3602cb8453630},{524,0x4cc498bf468bb},{524,0x4dab846e19e24},{524,0x4f31f8832dd2a},{524,0x61f605ccd807a},{524,0x79183793938cf},{524,0x7d219743c3f14},{524,0x8823a57adbef8},{524,0x884e8f9fc5fa1},{524,0x8dd600e50bd62},{524,0x9325b3b1f3edd},{524,0x9a282cd37f5e4},{524,0x9a9d36d3e4eed},{524,0xa5d03b88caabc},{524,0xa67a58c1f2e66},{524,0xabb34529b000f},{524,0xaea71972b3ec8},{524,0xb5a2712e7cc1f},{524,0xc27977585875a},{524,0xc29bc6879dfcc},{524,0xc382b23671536},{524,0xc63fb6cc0f9af},{524,0xca67083374513},{524,0xce8e599ad9077},{524,0xd4ffa345a1def},{524,0xdf2b9f386be07},{524,0xeb0f9b6e41d9b},{524,0xf6caf4c4c4bbf},{524,0xfee1bef206b73},
{525,0x105899ea953b2},{525,0x13aa1dee61b27},{525,0x1544f226fc22c},{525,0x1dd93172d2f4f},{525,0x1f9809adf89a4},{525,0x28db3fa9eaf33},{525,0x3602cb8453630},{525,0x3906e710af667},{525,0x3e915042ee00c},{525,0x4cc498bf468bb},{525,0x4d19a88f28bc8},{525,0x4dab846e19e24},{525,0x8823a57adbef8},{525,0x884e8f9fc5fa1},{525,0x8dd600e50bd62},{525,0x9a9d36d3e4eed},{525,0xa05142cab9225},{525,0xabb34529b000f},{525,0xb5a2712e7cc1f},{525,0xbc71403fa06ec},{525,0xc29bc6879dfcc},{525,0xc382b23671536},{525,0xca67083374513},{525,0xcc7ab0e726ac5},{525,0xd4ffa345a1def},{525,0xdf2b9f386be07},{525,0xe76c0b4bccebd},{525,0xf326e51ee9d18},{525,0xf6caf4c4c4bbf},
{526,0xaf1da9fffab4},{526,0x1333636157d50},{526,0x1544f226fc22c},{526,0x17d9b808bb40a},{526,0x1a6e7dea7a5e8},{526,0x28db3fa9eaf33},{526,0x33dd4de102f18},{526,0x3602cb8453630},{526,0x3a3ed8fafaf57},{526,0x4d19a88f28bc8},{526,0x4dab846e19e24},{526,0x587f729263716},{526,0x8823a57adbef8},{526,0x884e8f9fc5fa1},{526,0x8dd600e50bd62},{526,0xa05142cab9225},{526,0xa0ddda298532b},{526,0xaca36eb92caa7},{526,0xb7c7d863546db},{526,0xc004bcb0f8899},{526,0xc29bc6879dfcc},{526,0xca67083374513},{526,0xcb70dc8d4d7ec},{526,0xcfd6178223a33},{526,0xd4c953b5f018d},{526,0xd4ffa345a1def},{526,0xdc69fd14b4ed9},{526,0xdf52bacc9e567},{526,0xe76c0b4bccebd},{526,0xf2f7012758626},{526,0xfd13e794600a0},
{527,0x50ed0ff1a561},{527,0xaf1da9fffab4},{527,0xb881f1a22b50},{527,0x14672e5580201},{527,0x17a0495a8d4e6},{527,0x17d9b808bb40a},{527,0x24c1957176d60},{527,0x306f73e7b8dba},{527,0x32778bc28286c},{527,0x33dd4de102f18},{527,0x350f797f07f85},{527,0x427b56243374d},{527,0x4d19a88f28bc8},{527,0x4dab846e19e24},{527,0x527ea9a382a24},{527,0x587f729263716},{527,0x6ae794f47ae8e},{527,0x6e9ea7cf7a1e6},{527,0x6fedd9c7fd4c3},{527,0x8823a57adbef8},{527,0x884e8f9fc5fa1},{527,0x92c20b00d1dbe},{527,0xa05142cab9225},{527,0xa0ddda298532b},{527,0xa55fb6013cf62},{527,0xb7c7d863546db},{527,0xc29bc6879dfcc},{527,0xc535e272366d6},{527,0xc582fffb272bb},{527,0xca67083374513},{527,0xcb70dc8d4d7ec},{527,0xcdcbf4d1846a4},{527,0xcf982df4b2350},{527,0xd26add63e2c11},{527,0xd4c953b5f018d},{527,0xd75e457878703},{527,0xdc69fd14b4ed9},{527,0xdf52bacc9e567},{527,0xdfd7d70dff036},{527,0xe04599458e0e3},{527,0xf920171e92267},
{528,0xaf1da9fffab4},{528,0x17a0495a8d4e6},{528,0x17d9b808bb40a},{528,0x200ef190bb610},{528,0x3203c8d643133},{528,0x32778bc28286c},{528,0x3b2c52029b332},{528,0x4dab846e19e24},{528,0x5c498cb14a659},{528,0x6ae794f47ae8e},{528,0x6fedd9c7fd4c3},{528,0x79859d37ab6c3},{528,0x7ef43427e802c},{528,0x8823a57adbef8},{528,0x91e38a5838d63},{528,0x96c1adbe0c72d},{528,0x9ad5a310cd2bd},{528,0xa55fb6013cf62},{528,0xb3fdbe446d797},{528,0xbad396efbaa5c},{528,0xca67083374513},{528,0xcb70dc8d4d7ec},{528,0xd26add63e2c11},{528,0xd3b54054c2500},{528,0xd4c953b5f018d},{528,0xd51af8f31cabe},{528,0xd75e457878703},{528,0xde43821f74cbe},{528,0xdfd7d70dff036},{528,0xf920171e92267},
{529,0x4955b1e2751b},{529,0x5df0a267bcc9},{529,0xaf1da9fffab4},{529,0x14b0a8467ad4f},{529,0x17d9b808bb40a},{529,0x22e41a7ec8db5},{529,0x32778bc28286c},{529,0x3b2c52029b332},{529,0x3cd9d744fe4e6},{529,0x4dab846e19e24},{529,0x52fca3d6e4d98},{529,0x61a7fbbebb915},{529,0x6fedd9c7fd4c3},{529,0x72369916132a9},{529,0x75c77c2ebec85},{529,0x79859d37ab6c3},{529,0x80d4a15943ade},{529,0x8823a57adbef8},{529,0x88ce8f39b9b2d},{529,0x8f72a99c74313},{529,0x919219584992f},{529,0x96c1adbe0c72d},{529,0x9e10b1dfa4b48},{529,0xae9f4f36fc4db},{529,0xca67083374513},{529,0xd26add63e2c11},{529,0xd4c953b5f018d},{529,0xd51af8f31cabe},{529,0xdfd7d70dff036},{529,0xfea62097d7cee},
{530,0xaf1da9fffab4},{530,0xb2f6335f69b3},{530,0x14edc8d0605b8},{530,0x17d9b808bb40a},{530,0x22e41a7ec8db5},{530,0x2b358425d4a0b},{530,0x32778bc28286c},{530,0x4596240ac440f},{530,0x4756ccb01abfb},{530,0x4b792daba9962},{530,0x4dab846e19e24},{530,0x4e6a26e0ab624},{530,0x515c374c8eeb5},{530,0x61a7fbbebb915},{530,0x6812adf4ea394},{530,0x6fedd9c7fd4c3},{530,0x74e5d09ccbc07},{530,0x7bd6b71a5c7a1},{530,0x80d4a15943ade},{530,0x8823a57adbef8},{530,0x88ce8f39b9b2d},{530,0x8f72a99c74313},{530,0x919219584992f},{530,0x9633de348b5f6},{530,0x96c1adbe0c72d},{530,0x9b617a58ec1ea},{530,0xa4192cc950c4b},{530,0xae9f4f36fc4db},{530,0xcaedeabf9a3ce},{530,0xd26add63e2c11},{530,0xd4c953b5f018d},{530,0xdfd7d70dff036},{530,0xf1af30c0003cc},
{531,0xb0dfbb72427},{531,0x14edc8d0605b8},{531,0x17d9b808bb40a},{531,0x1cc8f4a3736e7},{531,0x209f7902f2c26},{531,0x22e41a7ec8db5},{531,0x27ee7d248b041},{531,0x2e09fd872eec3},{531,0x32778bc28286c},{531,0x447fb7ad9c1e4},{531,0x4b792daba9962},{531,0x61e2e1d84b33f},{531,0x6812adf4ea394},{531,0x68e85dd024401},{531,0x6fedd9c7fd4c3},{531,0x74e5d09ccbc07},{531,0x7bd6b71a5c7a1},{531,0x7ed030c4dbb0e},{531,0x8823a57adbef8},{531,0x8cf0547c07c68},{531,0x92135e414161c},{531,0x96c1adbe0c72d},{531,0x9b617a58ec1ea},{531,0xa5638fba3053a},{531,0xa850056826497},{531,0xcaedeabf9a3ce},{531,0xd26add63e2c11},{531,0xd4c953b5f018d},{531,0xe858cdd12cdb0},{531,0xefa7d1f2c51ca},{531,0xf1af30c0003cc},{531,0xf2ae86e9b7b68},{531,0xf50ed28eb085a},
{532,0x17d9b808bb40a},{532,0x214b46e4a0e7e},{532,0x22e41a7ec8db5},{532,0x27ee7d248b041},{532,0x44e105b26dae1},{532,0x4b792daba9962},{532,0x4f5d68cc92aab},{532,0x5e9ea3e175ca2},{532,0x6812adf4ea394},{532,0x68e85dd024401},{532,0x6fedd9c7fd4c3},{532,0x74e5d09ccbc07},{532,0x7bd6b71a5c7a1},{532,0x8823a57adbef8},{532,0x8cf0547c07c68},{532,0x92135e414161c},{532,0x96c1adbe0c72d},{532,0x9f13da4ab0a65},{532,0xa15b782d554e0},{532,0xa850056826497},{532,0xbbe5bbb6d0861},{532,0xd26add63e2c11},{532,0xd4c953b5f018d},{532,0xdaa44265c062c},{532,0xdbbe2f3306c81},{532,0xdea47b02f707a},{532,0xe109c9af94995},{532,0xe858cdd12cdb0},{532,0xeefc041116f73},{532,0xf2ae86e9b7b68},{532,0xf50ed28eb085a},{532,0xf891908a9d0bb},{532,0xfc144e868991c},
{533,0x248f873de41},{533,0x2ca6f2bc6f0d},{533,0xe0d720690b8c},{533,0x27ee7d248b041},{533,0x2ec9e3bc7f248},{533,0x3afd4c755608b},{533,0x3b3c2df518856},{533,0x44e105b26dae1},{533,0x4756ccb01abfb},{533,0x4b792daba9962},{533,0x4d128b1d4f175},{533,0x4f5d68cc92aab},{533,0x659a0ff377926},{533,0x6812adf4ea394},{533,0x68e85dd024401},{533,0x6fedd9c7fd4c3},{533,0x7bd6b71a5c7a1},{533,0x84b713111fc3a},{533,0x8823a57adbef8},{533,0x8ba5f18b28379},{533,0x92135e414161c},{533,0x992c7fdc216fa},{533,0xa15b782d554e0},{533,0xa204b098d63ad},{533,0xa850056826497},{533,0xbbe5bbb6d0861},{533,0xbe8cac8f0b312},{533,0xd26add63e2c11},{533,0xd4c953b5f018d},{533,0xdaa44265c062c},{533,0xe109c9af94995},{533,0xee095696d7798},{533,0xf5cd53504005d},{533,0xf891908a9d0bb},
{534,0xe0d720690b8c},{534,0x1a909722d2d00},{534,0x2113c472e7da4},{534,0x27ee7d248b041},{534,0x298af2fee9e30},{534,0x380b44ec21276},{534,0x3920c1a5adc30},{534,0x3a808420ed0db},{534,0x3b3c2df518856},{534,0x4756ccb01abfb},{534,0x4b188bc0b6542},{534,0x4b6e48d8b4aee},{534,0x4b792daba9962},{534,0x6812adf4ea394},{534,0x68e85dd024401},{534,0x6fedd9c7fd4c3},{534,0x719d9fc5485f9},{534,0x7bd6b71a5c7a1},{534,0x84b713111fc3a},{534,0x8823a57adbef8},{534,0x8ba5f18b28379},{534,0x92135e414161c},{534,0x9309459f3a88d},{534,0xa15b782d554e0},{534,0xa850056826497},{534,0xaf086777857c5},{534,0xb0bcf72d60a5e},{534,0xbbe5bbb6d0861},{534,0xbdffdd498ad86},{534,0xc217597224c79},{534,0xc52ebf35018ae},{534,0xc5efabc9c183d},{534,0xce77c2b3328fb},{534,0xd26add63e2c11},{534,0xdaa44265c062c},{534,0xdf409e2a2f47c},{534,0xf5cd53504005d},{534,0xf891908a9d0bb},{534,0xff970c827617d},
{535,0x27ee7d248b041},{535,0x2c92fee3a3867},{535,0x313780a2bc08e},{535,0x3263907a01343},{535,0x3920c1a5adc30},{535,0x3b3c2df518856},{535,0x3b44b80521714},{535,0x4b188bc0b6542},{535,0x4b792daba9962},{535,0x6812adf4ea394},{535,0x699e189dc921d},{535,0x719d9fc5485f9},{535,0x7664e08304fe7},{535,0x84b713111fc3a},{535,0x8823a57adbef8},{535,0x8ba5f18b28379},{535,0x92135e414161c},{535,0x9309459f3a88d},{535,0xa15b782d554e0},{535,0xa6a93257eebd3},{535,0xa850056826497},{535,0xafadaabb70133},{535,0xb0bcf72d60a5e},{535,0xbbe5bbb6d0861},{535,0xc0b9a26db41eb},{535,0xc52ebf35018ae},{535,0xc5cb22a3af8ec},{535,0xce77c2b3328fb},{535,0xd26add63e2c11},{535,0xdc7ba0ab38db3},{535,0xdf409e2a2f47c},{535,0xe41c185a11637},{535,0xeea535e7272f5},{535,0xf5cd53504005d},{535,0xf891908a9d0bb},{535,0xfea5f0cb57570},
{536,0x155c762828fa7},{536,0x15f629662d501},{536,0x168b8a7f22481},{536,0x2c92fee3a3867},{536,0x313780a2bc08e},{536,0x32283b4b3bd23},{536,0x3263907a01343},{536,0x32e15fe51913b},{536,0x332fcabc3f0bb},{536,0x3920c1a5adc30},{536,0x3d1c164a99e9b},{536,0x433cb2238fca2},{536,0x43c9879f1e128},{536,0x84b713111fc3a},{536,0x8b114b80cc2ff},{536,0x8ba5f18b28379},{536,0x92135e414161c},{536,0x9309459f3a88d},{536,0x955ce5eaec6ef},{536,0x992c7fdc216fa},{536,0x9cf10f6037ee3},{536,0xa00ab13c3d77a},{536,0xa15b782d554e0},{536,0xa850056826497},{536,0xb7c2732539b20},{536,0xc08a3d75e9088},{536,0xc52ebf35018ae},{536,0xcc520fd7a59d9},{536,0xcd45d0119cf9c},{536,0xce77c2b3328fb},{536,0xcfa9b554c825a},{536,0xd2e5e4de0895c},{536,0xdf409e2a2f47c},{536,0xe41c185a11637},{536,0xecf4b5d528b4a},{536,0xee417722fbe35},{536,0xeea535e7272f5},{536,0xf5cd53504005d},{536,0xf891908a9d0bb},{536,0xfea5f0cb57570},{536,0xff779fd329cb8},
{537,0x155c762828fa7},{537,0x15f629662d501},{537,0x168b8a7f22481},{537,0x2c92fee3a3867},{537,0x32e15fe51913b},{537,0x332fcabc3f0bb},{537,0x3d1c164a99e9b},{537,0x433cb2238fca2},{537,0x43c9879f1e128},{537,0x4c21ec866bc7e},{537,0x5f6ade23b3a1a},{537,0x67aa4fed1c913},{537,0x78e0df0c5288b},{537,0x824dafa6aa3fb},{537,0x84b713111fc3a},{537,0x8ba5f18b28379},{537,0x92135e414161c},{537,0x9309459f3a88d},{537,0x955ce5eaec6ef},{537,0x9cf10f6037ee3},{537,0xa850056826497},{537,0xb74139f7b803b},{537,0xb7c2732539b20},{537,0xb7e104f29ccd8},{537,0xc52ebf35018ae},{537,0xc87e058b46a20},{537,0xcc520fd7a59d9},{537,0xce77c2b3328fb},{537,0xd4717fdb1e7d6},{537,0xdf409e2a2f47c},{537,0xe41c185a11637},{537,0xf5cd53504005d},{537,0xf891908a9d0bb},{537,0xfea5f0cb57570},
{538,0x5f56e81fd286},{538,0x8be4faed8469},{538,0x2c92fee3a3867},{538,0x30113a892f3f4},{538,0x332fcabc3f0bb},{538,0x35aaf94728584},{538,0x4c21ec866bc7e},{538,0x5b00105a989e8},{538,0x6446585395bd5},{538,0x67aa4fed1c913},{538,0x7578ae3f19877},{538,0x78e0df0c5288b},{538,0x7d8560cb6b0b1},{538,0x7f99b7de5f58a},{538,0x824dafa6aa3fb},{538,0x84b713111fc3a},{538,0x92135e414161c},{538,0x9309459f3a88d},{538,0x955ce5eaec6ef},{538,0x98a3045d33a1d},{538,0xb09710eb96eb4},{538,0xb74139f7b803b},{538,0xb7e104f29ccd8},{538,0xc52ebf35018ae},{538,0xc6f73b3ac4bd5},{538,0xcc520fd7a59d9},{538,0xce77c2b3328fb},{538,0xe41c185a11637},{538,0xe9036e69cccad},{538,0xec58747ace342},{538,0xf60150b545d26},{538,0xfea5f0cb57570},
{539,0x419cdefbfc42},{539,0x194a955d5f05e},{539,0x1bedf73dd7bac},{539,0x2144372e4ba5f},{539,0x2957e46e5a6d2},{539,0x2c92fee3a3867},{539,0x332fcabc3f0bb},{539,0x391449cd28598},{539,0x3e636d174a047},{539,0x3faac3e3fa1f3},{539,0x4bbb1187ea648},{539,0x4c21ec866bc7e},{539,0x550c2fd78748c},{539,0x589c2b176d72a},{539,0x5b00105a989e8},{539,0x63c2909b14209},{539,0x74fbffc9e3687},{539,0x7578ae3f19877},{539,0x7d8560cb6b0b1},{539,0x7f99b7de5f58a},{539,0x824dafa6aa3fb},{539,0x84b713111fc3a},{539,0x94bbe986e5972},{539,0x955ce5eaec6ef},{539,0xab9729f850866},{539,0xae2a1092d8962},{539,0xb1d09ad8854be},{539,0xcc520fd7a59d9},{539,0xce77c2b3328fb},{539,0xd1a6c720d4090},{539,0xe41c185a11637},{539,0xfea5f0cb57570},{539,0xff779fd329cb8},
{540,0x419cdefbfc42},{540,0xc94bf931bd56},{540,0x13beab2025bb9},{540,0x18566669b1a55},{540,0x194a955d5f05e},{540,0x1aa483f093b2e},{540,0x20ab3ddd80daf},{540,0x2c92fee3a3867},{540,0x332fcabc3f0bb},{540,0x3dd5a71c0cbcc},{540,0x3faac3e3fa1f3},{540,0x3fb54056c80b7},{540,0x40cf975d9567a},{540,0x4c21ec866bc7e},{540,0x550c2fd78748c},{540,0x5e95e83f59605},{540,0x63c2909b14209},{540,0x6948c8517929f},{540,0x709c74b07b9d5},{540,0x7578ae3f19877},{540,0x76b6b63631052},{540,0x7ba4d7b846d41},{540,0x7f99b7de5f58a},{540,0x824dafa6aa3fb},{540,0x84b713111fc3a},{540,0x85fe69ddcfde6},{540,0x94bbe986e5972},{540,0x955ce5eaec6ef},{540,0xae091ea4b82ef},{540,0xae2a1092d8962},{540,0xbf88abd8c4921},{540,0xcbae64714d903},{540,0xcc520fd7a59d9},{540,0xce77c2b3328fb},{540,0xd9aec14c3c4eb},{540,0xdfc465e2b0e48},{540,0xeb1272b55a6a0},
{541,0x1d75948a78bb},{541,0x419cdefbfc42},{541,0xc94bf931bd56},{541,0x194a955d5f05e},{541,0x1aa483f093b2e},{541,0x20ab3ddd80daf},{541,0x22d484b022177},{541,0x26a4fb056cc8a},{541,0x2c92fee3a3867},{541,0x32b640f1e566e},{541,0x36dca2dbb0ba4},{541,0x3e1197641dfdc},{541,0x3faac3e3fa1f3},{541,0x40cf975d9567a},{541,0x5e95e83f59605},{541,0x610177feb9259},{541,0x63c2909b14209},{541,0x6948c8517929f},{541,0x709c74b07b9d5},{541,0x7578ae3f19877},{541,0x76b6b63631052},{541,0x7769ee0df0284},{541,0x7791804859b55},{541,0x7ef943af7889e},{541,0x7f99b7de5f58a},{541,0x824dafa6aa3fb},{541,0x9686d57945f80},{541,0x97efcc85747eb},{541,0xa304a17dc6228},{541,0xcc520fd7a59d9},{541,0xccfaca926e3a4},{541,0xce77c2b3328fb},{541,0xd9aec14c3c4eb},{541,0xdfc465e2b0e48},{541,0xe137630c601b7},
{542,0x1d75948a78bb},{542,0x419cdefbfc42},{542,0xc94bf931bd56},{542,0x194a955d5f05e},{542,0x26006b27a2366},{542,0x2c92fee3a3867},{542,0x3604953307e9d},{542,0x3e1197641dfdc},{542,0x3faac3e3fa1f3},{542,0x40cf975d9567a},{542,0x4c1e5f12ed482},{542,0x56e40f966bd1d},{542,0x6948c8517929f},{542,0x709c74b07b9d5},{542,0x71a793d2b1b2a},{542,0x7791804859b55},{542,0x78a623b1aa539},{542,0x7cc6e4bb08e06},{542,0x7ef943af7889e},{542,0x824dafa6aa3fb},{542,0x91037d34fac18},{542,0x9686d57945f80},{542,0x97efcc85747eb},{542,0xa304a17dc6228},{542,0xa399e74e9b59d},{542,0xb8be32187c592},{542,0xccfaca926e3a4},{542,0xce77c2b3328fb},{542,0xcf8468d75de07},{542,0xd9aec14c3c4eb},{542,0xdd59b923663ce},{542,0xe137630c601b7},{542,0xe4b787d038d1c},{542,0xf98167ec01820},{542,0xf9db03d7e1139},{542,0xf9eae3e89efce},{542,0xfe139d96186ee},
{543,0x419cdefbfc42},{543,0x639d4adfa3d2},{543,0xc94bf931bd56},{543,0x12efaa783d6da},{543,0x157eb6bb83936},{543,0x194a955d5f05e},{543,0x301a43a50593b},{543,0x3e1197641dfdc},{543,0x3f6c16bc28976},{543,0x3faac3e3fa1f3},{543,0x505b5c2ac0988},{543,0x56e40f966bd1d},{543,0x6948c8517929f},{543,0x709c74b07b9d5},{543,0x7791804859b55},{543,0x78a623b1aa539},{543,0x7ef943af7889e},{543,0x824dafa6aa3fb},{543,0x8948ad6a475d5},{543,0x8d4b10e30febf},{543,0x8f52c9aa99e62},{543,0x8f9574dcf8a70},{543,0x91037d34fac18},{543,0x96895cd5f6387},{543,0xa304a17dc6228},{543,0xa38ef3326e71a},{543,0xa399e74e9b59d},{543,0xa85ba69accad4},{543,0xb4342cd32b1ef},{543,0xb8be32187c592},{543,0xb9dc1aac771b6},{543,0xba3e49137da7c},{543,0xce77c2b3328fb},{543,0xdf8025d5f72ed},{543,0xe431534de8c65},{543,0xe4b787d038d1c},{543,0xeeaf4c94a26c7},{543,0xf9609233f6adc},{543,0xf9eae3e89efce},{543,0xfabf319ee6b91},
{544,0x639d4adfa3d2},{544,0x9674a208b094},{544,0x9dc2dae6dc65},{544,0xc94bf931bd56},{544,0xfc23505aca18},{544,0x12efaa783d6da},{544,0x157eb6bb83936},{544,0x1bb45aa7212ee},{544,0x1fa58042809e2},{544,0x22d3f0aedbab4},{544,0x2d2909e201057},{544,0x301a43a50593b},{544,0x35515d5b48c6b},{544,0x3e1197641dfdc},{544,0x3f6c16bc28976},{544,0x3faac3e3fa1f3},{544,0x4590035977748},{544,0x45df7910ad32e},{544,0x4a8ea5925d42d},{544,0x505b5c2ac0988},{544,0x73369eff75558},{544,0x78a623b1aa539},{544,0x824dafa6aa3fb},{544,0x8f52c9aa99e62},{544,0x8f9574dcf8a70},{544,0x91037d34fac18},{544,0xa304a17dc6228},{544,0xa399e74e9b59d},{544,0xb8be32187c592},{544,0xbe8670a2c87c6},{544,0xc8e5682eaac92},{544,0xce77c2b3328fb},{544,0xea1915caee2c0},{544,0xfdf6f3244d909},{544,0xff3309bb19d7d},
{545,0x4b55d9df20dd},{545,0x9dc2dae6dc65},{545,0xafe04d9d36f5},{545,0xb38e07c745ae},{545,0xc94bf931bd56},{545,0xe2b7a4c643b7},{545,0xfc23505aca18},{545,0x1d8bcadc60d05},{545,0x1fa58042809e2},{545,0x2d2909e201057},{545,0x301a43a50593b},{545,0x3faac3e3fa1f3},{545,0x4a8ea5925d42d},{545,0x505b5c2ac0988},{545,0x58a41b31c9a9a},{545,0x6dc91163ac023},{545,0x6f320f75172e4},{545,0x73369eff75558},{545,0x78a623b1aa539},{545,0x7dd0664a99ca9},{545,0x91037d34fac18},{545,0xa390211b3848f},{545,0xade378644d5fa},{545,0xb05943f62348f},{545,0xb8be32187c592},{545,0xb98a44f94b14b},{545,0xbe8670a2c87c6},{545,0xc8e5682eaac92},{545,0xcd01577b17462},{545,0xce77c2b3328fb},{545,0xd15fbe41acabc},{545,0xdbf89de9cb187},{545,0xdd80ae3624050},{545,0xf37ad21436d0c},{545,0xfdf6f3244d909},{545,0xff3309bb19d7d},
{546,0x7d08f6742a33},{546,0x961f3c23a9f1},{546,0x9dc2dae6dc65},{546,0xb38e07c745ae},{546,0xc94bf931bd56},{546,0xe2b7a4c643b7},{546,0xfc23505aca18},{546,0x103bdc0231bde},{546,0x17b3daa4169fd},{546,0x1d8bcadc60d05},{546,0x1e53a79ca8d30},{546,0x1fa58042809e2},{546,0x2bb017a5ba7d4},{546,0x301a43a50593b},{546,0x3faac3e3fa1f3},{546,0x4a8ea5925d42d},{546,0x505b5c2ac0988},{546,0x557cb8164d680},{546,0x58a41b31c9a9a},{546,0x61d7efada37ec},{546,0x65ed5d189f7f9},{546,0x6f15f872a48d4},{546,0x6f320f75172e4},{546,0x719d727f99341},{546,0x7601c6c7c9b00},{546,0x7dd0664a99ca9},{546,0x8c833422c7e94},{546,0x8f9574dcf8a70},{546,0x9c0bbbd1e0fbb},{546,0xa624147ee62d2},{546,0xb05943f62348f},{546,0xb8be32187c592},{546,0xce77c2b3328fb},{546,0xf078c41eb2239},{546,0xf37ad21436d0c},{546,0xf6cb70e77ef24},{546,0xfab2c0a8e6ff9},{546,0xfdf6f3244d909},
{547,0x7d08f6742a33},{547,0xb38e07c745ae},{547,0xc94bf931bd56},{547,0xfc23505aca18},{547,0x1fa58042809e2},{547,0x301a43a50593b},{547,0x304b9c16792b3},{547,0x475dbc5a9295b},{547,0x4a8ea5925d42d},{547,0x505b5c2ac0988},{547,0x58a41b31c9a9a},{547,0x65ed5d189f7f9},{547,0x6b88ecda92961},{547,0x7039c3cd946e5},{547,0x7601c6c7c9b00},{547,0x8f9574dcf8a70},{547,0x94102b67a00ca},{547,0x9b1264b3f6d75},{547,0x9c0bbbd1e0fbb},{547,0x9d12b7a4fc1af},{547,0xa23cc4bd7e1fe},{547,0xa624147ee62d2},{547,0xb05943f62348f},{547,0xb8be32187c592},{547,0xc188237897bbe},{547,0xce77c2b3328fb},{547,0xd22a1a8b2277d},{547,0xd9b87960b1ac5},{547,0xf078c41eb2239},{547,0xf37ad21436d0c},{547,0xf6cb70e77ef24},{547,0xfab2c0a8e6ff9},{547,0xfdf6f3244d909},
{548,0x57aa400d291c},{548,0x61fec53f080a},{548,0x6f9e18cf25d4},{548,0xb38e07c745ae},{548,0xc94bf931bd56},{548,0xfc23505aca18},{548,0x1fa58042809e2},{548,0x23f402f368615},{548,0x29945e4a27efa},{548,0x2e739a883ce33},{548,0x304b9c16792b3},{548,0x38128cd93e285},{548,0x3baafe3c1d15b},{548,0x4f3349820b0b8},{548,0x5052757d5df10},{548,0x55cf5c3fdc5f7},{548,0x56c748bc8945c},{548,0x58a41b31c9a9a},{548,0x904983e1dbdba},{548,0x92238f7987779},{548,0x95a6e620e872b},{548,0x96ce348ab684d},{548,0x9c0bbbd1e0fbb},{548,0xaa05ebbebc374},{548,0xb05943f62348f},{548,0xcd84d564a4d5c},{548,0xce08534e32656},{548,0xce77c2b3328fb},{548,0xd069040a6ab64},{548,0xd637269899c23},{548,0xd9b87960b1ac5},{548,0xda817ac667465},{548,0xecbc9e58ce23b},{548,0xf078c41eb2239},{548,0xf37ad21436d0c},{548,0xfab2c0a8e6ff9},
{549,0x7768d1be76f7},{549,0xb38e07c745ae},{549,0x100a8390be266},{549,0x1fa58042809e2},{549,0x29945e4a27efa},{549,0x2e739a883ce33},{549,0x2fcefe5f5e037},{549,0x38128cd93e285},{549,0x4ebbbac4158af},{549,0x55cf5c3fdc5f7},{549,0x58a41b31c9a9a},{549,0x65e89183d307c},{549,0x69f9335a0290c},{549,0x6a0f24558f920},{549,0x6c5edaf08c985},{549,0x6ca099e553602},{549,0x705ec622ab1ff},{549,0x769c1d8f291c9},{549,0x92238f7987779},{549,0x96ce348ab684d},{549,0x9c0bbbd1e0fbb},{549,0xa58a315dbc6f5},{549,0xb05943f62348f},{549,0xba4deb990c5e7},{549,0xbe5e8d6f3be77},{549,0xcd84d564a4d5c},{549,0xce08534e32656},{549,0xce77c2b3328fb},{549,0xd069040a6ab64},{549,0xd0755a26c79c2},{549,0xd4a06bdf515c2},{549,0xf078c41eb2239},{549,0xf37ad21436d0c},{549,0xf816018dbad00},{549,0xfab2c0a8e6ff9},
{550,0xb38e07c745ae},{550,0xc786a8477103},{550,0x100a8390be266},{550,0x1048321e8ea3c},{550,0x197b290631475},{550,0x2571c1d2469aa},{550,0x2e739a883ce33},{550,0x3becbd30e3dd8},{550,0x47be77e6fd7bb},{550,0x4ebbbac4158af},{550,0x5055311c92259},{550,0x51c12476e4359},{550,0x55cf5c3fdc5f7},{550,0x58a41b31c9a9a},{550,0x6a0f24558f920},{550,0x723150727efed},{550,0x723d47e18b312},{550,0x769c1d8f291c9},{550,0x92238f7987779},{550,0x9c0bbbd1e0fbb},{550,0xa4343b858c608},{550,0xb05943f62348f},{550,0xb71aeb2e81b9c},{550,0xcd426d75ce66e},{550,0xcd84d564a4d5c},{550,0xce08534e32656},{550,0xce77c2b3328fb},{550,0xd4a06bdf515c2},{550,0xdc88a70c11738},{550,0xe656532cddc1d},{550,0xf078c41eb2239},{550,0xf07eef2ce0968},{550,0xf37ad21436d0c},{550,0xf678ccbdeffad},{550,0xf816018dbad00},
{551,0x482b78425ab7},{551,0xb38e07c745ae},{551,0x1048321e8ea3c},{551,0x197b290631475},{551,0x2392ced6ac1c3},{551,0x2571c1d2469aa},{551,0x2e739a883ce33},{551,0x2f9ee6896498f},{551,0x37a542a306d36},{551,0x41ced73a7da9e},{551,0x47be77e6fd7bb},{551,0x4ebbbac4158af},{551,0x5067b2471d7e6},{551,0x55cf5c3fdc5f7},{551,0x5764706de5af8},{551,0x58a41b31c9a9a},{551,0x6059fb9f9ea2c},{551,0x6076859b4a44e},{551,0x6570b189aa6d6},{551,0x723150727efed},{551,0x73f975dcb1eb8},{551,0x76e670246298a},{551,0x90685b28c41a5},{551,0x90c4e0fd7cd66},{551,0x92238f7987779},{551,0x9c0bbbd1e0fbb},{551,0xa56fa1410e402},{551,0xb04da9165d03a},{551,0xb05943f62348f},{551,0xb71aeb2e81b9c},{551,0xce08534e32656},{551,0xce251e89a3984},{551,0xce77c2b3328fb},{551,0xd4a06bdf515c2},{551,0xdc88a70c11738},{551,0xe07a24a9d4195},{551,0xe656532cddc1d},{551,0xeb9db3da7c398},{551,0xeca1dc50081bc},{551,0xf07eef2ce0968},{551,0xf1eadb719513d},{551,0xf37ad21436d0c},{551,0xf816018dbad00},
{552,0xb38e07c745ae},{552,0xc819b445641f},{552,0x184781d8fda8e},{552,0x197b290631475},{552,0x1b0165b6831ab},{552,0x2571c1d2469aa},{552,0x2c9bd8c965d28},{552,0x2f9ee6896498f},{552,0x4050669985a86},{552,0x4ebbbac4158af},{552,0x5067b2471d7e6},{552,0x5446ab8b1b9ed},{552,0x5764706de5af8},{552,0x58a41b31c9a9a},{552,0x5f0a665dba0b8},{552,0x6059fb9f9ea2c},{552,0x64e4690e47258},{552,0x6570b189aa6d6},{552,0x73f975dcb1eb8},{552,0x830e82ab1cb19},{552,0x90c4e0fd7cd66},{552,0x92238f7987779},{552,0x9c0bbbd1e0fbb},{552,0xa1389c47f23da},{552,0xa56fa1410e402},{552,0xa93930927de9f},{552,0xac464394828a7},{552,0xb04da9165d03a},{552,0xbee0a1aa01d89},{552,0xbf62b5e4c7c9b},{552,0xc0708fa3bb1ef},{552,0xce08534e32656},{552,0xce251e89a3984},{552,0xd087db5152f4f},{552,0xd4a06bdf515c2},{552,0xe31d900baf342},{552,0xe656532cddc1d},{552,0xf1eadb719513d},{552,0xf816018dbad00},
{553,0xc819b445641f},{553,0x184781d8fda8e},{553,0x197b290631475},{553,0x217cffdce15b7},{553,0x284c4c5c0a261},{553,0x381c5d507b733},{553,0x382cc34ca2427},{553,0x4050669985a86},{553,0x436c0c0a487f1},{553,0x457139adf8840},{553,0x4ebbbac4158af},{553,0x5446ab8b1b9ed},{553,0x58a41b31c9a9a},{553,0x5bd740c7c1da9},{553,0x64e4690e47258},{553,0x6570b189aa6d6},{553,0x7264e6c9e8d6b},{553,0x7bfa75ab49ba7},{553,0x7e6a08d779f7d},{553,0x830e82ab1cb19},{553,0x8637f41fcad31},{553,0x8f3bca0380c4a},{553,0x90c4e0fd7cd66},{553,0x92238f7987779},{553,0x9c0bbbd1e0fbb},{553,0xa1389c47f23da},{553,0xa56fa1410e402},{553,0xa86c75663f9ca},{553,0xa93930927de9f},{553,0xb04da9165d03a},{553,0xbe010e6bb7446},{553,0xc0708fa3bb1ef},{553,0xce251e89a3984},{553,0xd087db5152f4f},{553,0xd44324f2f363b},{553,0xd8a1574aa9663},{553,0xe3d0cc18a6589},{553,0xe656532cddc1d},{553,0xf1eadb719513d},{553,0xf816018dbad00},{553,0xfbb6e91e72e1d},
{554,0x57249f694b14},{554,0xadda2694743b},{554,0xc819b445641f},{554,0xefef0452b796},{554,0x197b290631475},{554,0x217cffdce15b7},{554,0x29d568678ae83},{554,0x30642367b8f06},{554,0x381c5d507b733},{554,0x38ea7535f5ae3},{554,0x4050669985a86},{554,0x436c0c0a487f1},{554,0x4ebbbac4158af},{554,0x5446ab8b1b9ed},{554,0x5570f59bd178b},{554,0x5bd740c7c1da9},{554,0x64e4690e47258},{554,0x655b1837afa2b},{554,0x6570b189aa6d6},{554,0x782933ae7e4d4},{554,0x790e40286d56c},{554,0x92238f7987779},{554,0x9c0bbbd1e0fbb},{554,0xa318c37e58595},{554,0xa56fa1410e402},{554,0xa86c75663f9ca},{554,0xb04da9165d03a},{554,0xb227e11dbef54},{554,0xbfee43f543aa2},{554,0xc0708fa3bb1ef},{554,0xc3a8e5c89dca5},{554,0xc950bd2584504},{554,0xd05231f8abd64},{554,0xd087db5152f4f},{554,0xd677eb79b2197},{554,0xd8a1574aa9663},{554,0xf1eadb719513d},{554,0xf816018dbad00},{554,0xfa71b68b84070},{554,0xfa81285d02966},{554,0xfb48bd5c87ac0},{554,0xfbb6e91e72e1d},
{555,0xbab4ecab55c2},{555,0xefef0452b796},{555,0x197b290631475},{555,0x29d568678ae83},{555,0x2cccae96ae675},{555,0x381c5d507b733},{555,0x4050669985a86},{555,0x436c0c0a487f1},{555,0x4ebbbac4158af},{555,0x5446ab8b1b9ed},{555,0x5570f59bd178b},{555,0x57148ed2cb3a4},{555,0x5a0b697de296d},{555,0x5bd740c7c1da9},{555,0x64e4690e47258},{555,0x655b1837afa2b},{555,0x65870257be92e},{555,0x782933ae7e4d4},{555,0x790e40286d56c},{555,0x838a78e97324b},{555,0x8e6571b3111f9},{555,0x92238f7987779},{555,0x947b26953abff},{555,0xb04da9165d03a},{555,0xbe1d8351d8eee},{555,0xc0708fa3bb1ef},{555,0xc3a8e5c89dca5},{555,0xc9ebe6ccbb746},{555,0xca81cf77f6b69},{555,0xd087db5152f4f},{555,0xd677eb79b2197},{555,0xf1eadb719513d},{555,0xfa71b68b84070},
{556,0x34d9f2b1dd97},{556,0x197b290631475},{556,0x23335afa48f53},{556,0x24a9f717d81e5},{556,0x2cccae96ae675},{556,0x2e6b5d323d306},{556,0x381c5d507b733},{556,0x3dc434ad61f92},{556,0x4050669985a86},{556,0x4151db545f25c},{556,0x4253500f38a32},{556,0x436c0c0a487f1},{556,0x4913e3672f050},{556,0x4944b4974f4f1},{556,0x4ebbbac4158af},{556,0x5446ab8b1b9ed},{556,0x5570f59bd178b},{556,0x655b1837afa2b},{556,0x688aa3cb813f6},{556,0x782933ae7e4d4},{556,0x7c768e0565c10},{556,0x838a78e97324b},{556,0x8637f41fcad31},{556,0x8e6571b3111f9},{556,0x97ae4c2b32f0e},{556,0x9de981d8b0de1},{556,0xa399af5908778},{556,0xa84d9e1f575df},{556,0xb04da9165d03a},{556,0xb9ec2adee27fb},{556,0xbc6abcb855297},{556,0xbe1d8351d8eee},{556,0xc27379196e19b},{556,0xc3a8e5c89dca5},{556,0xdcea363825e85},{556,0xde365574c5e53},{556,0xe32f6a53987e4},{556,0xe7c5f127bd87e},{556,0xe81098732d7c8},{556,0xede70ee2f6f69},{556,0xf1eadb719513d},
{557,0x108579c62dc9a},{557,0x15a295be72642},{557,0x197b290631475},{557,0x23335afa48f53},{557,0x2cccae96ae675},{557,0x2fc2c1a2ab161},{557,0x3dc434ad61f92},{557,0x4050669985a86},{557,0x4151db545f25c},{557,0x436c0c0a487f1},{557,0x4913e3672f050},{557,0x4944b4974f4f1},{557,0x5570f59bd178b},{557,0x637b4279ddd1e},{557,0x655b1837afa2b},{557,0x688aa3cb813f6},{557,0x782933ae7e4d4},{557,0x81a24d0830406},{557,0x838a78e97324b},{557,0x83b11bf4941ef},{557,0x87ae903d59fc3},{557,0xa399af5908778},{557,0xa84d9e1f575df},{557,0xadac4f010b65c},{557,0xb0cd197bf732a},{557,0xb6cd497b2787f},{557,0xbe1d8351d8eee},{557,0xc08fa5ba51847},{557,0xc172045e949c5},{557,0xc1f2bebc015b0},{557,0xc3a8e5c89dca5},{557,0xc6794c04d40f3},{557,0xde365574c5e53},{557,0xe3b81c38331d2},{557,0xe81098732d7c8},{557,0xede70ee2f6f69},{557,0xf1eadb719513d},
{558,0xa148da984b37},{558,0xfea84f5699fb},{558,0x1429bb201de34},{558,0x23335afa48f53},{558,0x241e04d2580f8},{558,0x2638cb864e120},{558,0x2cccae96ae675},{558,0x2fc2c1a2ab161},{558,0x3641d74d06c2a},{558,0x3c52284b0d36f},{558,0x3c87121732846},{558,0x4050669985a86},{558,0x4151db545f25c},{558,0x436c0c0a487f1},{558,0x43bc052262647},{558,0x4913e3672f050},{558,0x4e96227d62b32},{558,0x52d558a816f6b},{558,0x5570f59bd178b},{558,0x655b1837afa2b},{558,0x69239f38fb691},{558,0x6e6b645c468e9},{558,0x782933ae7e4d4},{558,0x81a24d0830406},{558,0x838a78e97324b},{558,0x83b11bf4941ef},{558,0x92eac157c4d98},{558,0xa399af5908778},{558,0xa43db2d39511c},{558,0xb6cd497b2787f},{558,0xbe1d8351d8eee},{558,0xc08fa5ba51847},{558,0xc172045e949c5},{558,0xc1f2bebc015b0},{558,0xc3a8e5c89dca5},{558,0xda966a9dd1dab},{558,0xe3b81c38331d2},{558,0xe81098732d7c8},{558,0xede70ee2f6f69},{558,0xf3387cc90a5ab},
{559,0x10169a08e0b2},{559,0x16a3f451e6d45},{559,0x23335afa48f53},{559,0x2fc2c1a2ab161},{559,0x3641d74d06c2a},{559,0x3c52284b0d36f},{559,0x4050669985a86},{559,0x4151db545f25c},{559,0x436c0c0a487f1},{559,0x43bc052262647},{559,0x48e18ef36f57d},{559,0x4913e3672f050},{559,0x4944b4974f4f1},{559,0x4d964820c9fbc},{559,0x5570f59bd178b},{559,0x69239f38fb691},{559,0x6dd474ddce25e},{559,0x782933ae7e4d4},{559,0x81a24d0830406},{559,0x838a78e97324b},{559,0x83b11bf4941ef},{559,0x8589fa8321936},{559,0x890289daa7831},{559,0x9ad37049fbbc2},{559,0xa399af5908778},{559,0xaa856627c6223},{559,0xc172045e949c5},{559,0xc1f2bebc015b0},{559,0xc330b244c2841},{559,0xd30af82fa6c17},{559,0xd8686d7e66114},{559,0xd8ab000d71a4c},{559,0xe3b81c38331d2},{559,0xe7c5f127bd87e},{559,0xe81098732d7c8},{559,0xede70ee2f6f69},{559,0xf3387cc90a5ab},{559,0xf4afa24ee6aef},{559,0xfdf0f7fcdf0a8},
{560,0x591ff7983b6},{560,0x10169a08e0b2},{560,0x16a3f451e6d45},{560,0x19ef122794361},{560,0x1d1d710dc9844},{560,0x1e91174758f30},{560,0x23335afa48f53},{560,0x24193070f3f04},{560,0x297b0e4e7a05a},{560,0x2ead8f18ee5a9},{560,0x2fc2c1a2ab161},{560,0x360a74f6dc268},{560,0x3c52284b0d36f},{560,0x4151db545f25c},{560,0x42d40a6ca561d},{560,0x436c0c0a487f1},{560,0x4913e3672f050},{560,0x4944b4974f4f1},{560,0x4d964820c9fbc},{560,0x5570f59bd178b},{560,0x617a142e47b31},{560,0x69239f38fb691},{560,0x6d2413e5389c2},{560,0x6dd474ddce25e},{560,0x782933ae7e4d4},{560,0x7ed99718cff05},{560,0x81a24d0830406},{560,0x822307659cff1},{560,0x8589fa8321936},{560,0x890289daa7831},{560,0x8c50d3f049fe6},{560,0x90be2872ca8b2},{560,0x943df6e5bc1d1},{560,0x9ad37049fbbc2},{560,0xa1ca85e218cdb},{560,0xa399af5908778},{560,0xaacd3302c5d6e},{560,0xae2e0e0102e1e},{560,0xbb0d15d5aeabe},{560,0xc172045e949c5},{560,0xc1f2bebc015b0},{560,0xc330b244c2841},{560,0xd8686d7e66114},{560,0xe21af795e9e85},{560,0xe3b81c38331d2},{560,0xe81098732d7c8},{560,0xf87699298d41a},
{561,0x591ff7983b6},{561,0x10169a08e0b2},{561,0x3850d73adc49},{561,0x43f1a30abf58},{561,0x16a3f451e6d45},{561,0x1e91174758f30},{561,0x297b0e4e7a05a},{561,0x2ead8f18ee5a9},{561,0x2fc2c1a2ab161},{561,0x360a74f6dc268},{561,0x42d40a6ca561d},{561,0x4d964820c9fbc},{561,0x5570f59bd178b},{561,0x593429e8255c1},{561,0x5bf870abe2a03},{561,0x617a142e47b31},{561,0x69239f38fb691},{561,0x6ce905ecfcc81},{561,0x6dd474ddce25e},{561,0x7434dc3562dbf},{561,0x74d77640c6cae},{561,0x782933ae7e4d4},{561,0x79131489d1761},{561,0x7ed99718cff05},{561,0x81a24d0830406},{561,0x822307659cff1},{561,0x8ba8d69cff257},{561,0x8c50d3f049fe6},{561,0x90be2872ca8b2},{561,0x999b24c2167c9},{561,0x9ad37049fbbc2},{561,0xa1ca85e218cdb},{561,0xad055d434b28d},{561,0xae2e0e0102e1e},{561,0xc172045e949c5},{561,0xce0824414adc9},{561,0xd8686d7e66114},{561,0xe81098732d7c8},{561,0xf87699298d41a},
{562,0x591ff7983b6},{562,0x10169a08e0b2},{562,0x43f1a30abf58},{562,0x53095363a119},{562,0x16a3f451e6d45},{562,0x201d531cbe6d0},{562,0x253ec0e16141f},{562,0x2ead8f18ee5a9},{562,0x2fc2c1a2ab161},{562,0x360a74f6dc268},{562,0x42d40a6ca561d},{562,0x5570f59bd178b},{562,0x612be49090629},{562,0x627b88e921307},{562,0x69239f38fb691},{562,0x6ce905ecfcc81},{562,0x711b59e1666f9},{562,0x782933ae7e4d4},{562,0x7d12a4670c122},{562,0x81a24d0830406},{562,0x822307659cff1},{562,0x8ba8d69cff257},{562,0x8c50d3f049fe6},{562,0x8eb53a853b9e4},{562,0x999b24c2167c9},{562,0x9ad37049fbbc2},{562,0xa1ca85e218cdb},{562,0xc172045e949c5},{562,0xc612359ef45d0},{562,0xce0824414adc9},{562,0xd4af22b93c218},{562,0xd8686d7e66114},{562,0xe11982db106af},{562,0xe81098732d7c8},{562,0xee175ab0e02f6},{562,0xf27178d49c13a},{562,0xf42ece37ed9a6},{562,0xf7345a1d3fddf},{562,0xf87699298d41a},
{563,0x591ff7983b6},{563,0x53095363a119},{563,0x21a5569a7a916},{563,0x232c8bf029933},{563,0x253ec0e16141f},{563,0x297defdc97d17},{563,0x2ead8f18ee5a9},{563,0x2fc2c1a2ab161},{563,0x360a74f6dc268},{563,0x390ccd919b6cd},{563,0x3c4129d30b445},{563,0x414cf9eee4489},{563,0x5570f59bd178b},{563,0x6527c1e4c5e5d},{563,0x69239f38fb691},{563,0x6d1f7c8d30ec5},{563,0x724f48275f17c},{563,0x7d12a4670c122},{563,0x81a24d0830406},{563,0x822307659cff1},{563,0x84b1bc2bab084},{563,0x8c50d3f049fe6},{563,0x90fa448312899},{563,0x91f6c6a3dae66},{563,0x999b24c2167c9},{563,0xa1ca85e218cdb},{563,0xb19e452056b50},{563,0xb982cef6923c2},{563,0xbf61266273090},{563,0xc172045e949c5},{563,0xc612359ef45d0},{563,0xc949921541af6},{563,0xce875651cc2fd},{563,0xd145c39cd283a},{563,0xd8e94f9b878e5},{563,0xf346f9ed36b88},{563,0xf5dec98b61fd1},{563,0xf87699298d41a},{563,0xfa18f3a1fd22a},
{564,0x591ff7983b6},{564,0x10ff3b4909666},{564,0x1f1eb163eabf3},{564,0x232c8bf029933},{564,0x253ec0e16141f},{564,0x2c15bf7ac3160},{564,0x2ead8f18ee5a9},{564,0x2fc2c1a2ab161},{564,0x360a74f6dc268},{564,0x390ccd919b6cd},{564,0x55384c93efd8d},{564,0x5570f59bd178b},{564,0x55e955c982914},{564,0x5ce1f017692fe},{564,0x6725b08ee0a77},{564,0x69239f38fb691},{564,0x724f48275f17c},{564,0x77c6a1f6b7315},{564,0x7d0ef1de06f95},{564,0x7d12a4670c122},{564,0x8881480dfa835},{564,0x8c50d3f049fe6},{564,0x91f6c6a3dae66},{564,0x999b24c2167c9},{564,0xa0c53e485e235},{564,0xa1ca85e218cdb},{564,0xa2104574ee4f6},{564,0xa32e1b3e26e0c},{564,0xb19e452056b50},{564,0xb4113d89f1563},{564,0xc172045e949c5},{564,0xd8e94f9b878e5},{564,0xe2be3b0176f25},{564,0xf5dec98b61fd1},{564,0xf87699298d41a},
{565,0x591ff7983b6},{565,0x508ee0e446db},{565,0x5791e2473f80},{565,0x8ac2da050d0e},{565,0x10ff3b4909666},{565,0x1f1eb163eabf3},{565,0x232c8bf029933},{565,0x253ec0e16141f},{565,0x2c15bf7ac3160},{565,0x2fc2c1a2ab161},{565,0x5570f59bd178b},{565,0x55e955c982914},{565,0x5f2df5e675a0f},{565,0x6384a361bd07d},{565,0x6725b08ee0a77},{565,0x6824a7e3ee084},{565,0x69239f38fb691},{565,0x724f48275f17c},{565,0x7319488b81313},{565,0x77c6a1f6b7315},{565,0x7d12a4670c122},{565,0x8881480dfa835},{565,0x8f7fb26a411b5},{565,0x90205fd299797},{565,0x92462c52282bd},{565,0x972d229bac838},{565,0xa0c53e485e235},{565,0xa1ca85e218cdb},{565,0xa6d6312603e96},{565,0xb4113d89f1563},{565,0xc172045e949c5},{565,0xd8e94f9b878e5},{565,0xde887cfbdc940},{565,0xe2be3b0176f25},{565,0xea1425c8fa6aa},{565,0xeb7f8b12b4ead},{565,0xf5dec98b61fd1},{565,0xf87699298d41a},
{566,0x591ff7983b6},{566,0x139622bf4f2a},{566,0x61bcfa1335f0},{566,0xcd5b474ad1ba},{566,0x17af9eb35b097},{566,0x1dc1c98da80f4},{566,0x1f1eb163eabf3},{566,0x253ec0e16141f},{566,0x29f864433326e},{566,0x2c15bf7ac3160},{566,0x2d61a749d8b85},{566,0x315f851f17d67},{566,0x3f474c20e9d10},{566,0x4461b2218f24e},{566,0x5f2df5e675a0f},{566,0x6301ff94dfb2a},{566,0x6384a361bd07d},{566,0x6428ca8fb8850},{566,0x69239f38fb691},{566,0x6e1e73e23e4d2},{566,0x71e9ff964e362},{566,0x724f48275f17c},{566,0x7d12a4670c122},{566,0x900f4d5feb489},{566,0x90205fd299797},{566,0x90fa448312899},{566,0x92462c52282bd},{566,0xa0c53e485e235},{566,0xa1ca85e218cdb},{566,0xa6d6312603e96},{566,0xb4113d89f1563},{566,0xb91ef6b5dc06d},{566,0xc172045e949c5},{566,0xd8e94f9b878e5},{566,0xdc574d80cf16b},{566,0xde887cfbdc940},{566,0xf5dec98b61fd1},{566,0xf87699298d41a},
{567,0x591ff7983b6},{567,0x61bcfa1335f0},{567,0xcd5b474ad1ba},{567,0xeea77dedb410},{567,0x1528c21d65b12},{567,0x17af9eb35b097},{567,0x1dc1c98da80f4},{567,0x1f1eb163eabf3},{567,0x1f9fcda46e026},{567,0x253ec0e16141f},{567,0x27ceca7f59b0a},{567,0x2c15bf7ac3160},{567,0x4461b2218f24e},{567,0x4647ce98272ca},{567,0x5f2df5e675a0f},{567,0x5f7df68d831a1},{567,0x65e06e1ea62fd},{567,0x66a634e459f70},{567,0x69239f38fb691},{567,0x698af77f34bb7},{567,0x78141d34c4154},{567,0x7968c4bed6396},{567,0x7d12a4670c122},{567,0x83eaf7ab513cf},{567,0x92462c52282bd},{567,0x9f3d3a690082a},{567,0xa0c53e485e235},{567,0xa1ca85e218cdb},{567,0xab47247f0fc64},{567,0xb4113d89f1563},{567,0xb91ef6b5dc06d},{567,0xc172045e949c5},{567,0xcdee98dba97c9},{567,0xce0d00f025093},{567,0xde887cfbdc940},{567,0xed03517eead11},{567,0xf50700914f0fc},{567,0xf6387b7d94764},
{568,0x61bcfa1335f0},{568,0xac0f10a7ef64},{568,0xd9c02406bd5c},{568,0xde01629c42e5},{568,0x17af9eb35b097},{568,0x1d96ad848d1e8},{568,0x1dc1c98da80f4},{568,0x1f9fcda46e026},{568,0x253ec0e16141f},{568,0x27ceca7f59b0a},{568,0x2c15bf7ac3160},{568,0x3ec80669009ca},{568,0x5f2df5e675a0f},{568,0x65e06e1ea62fd},{568,0x66a634e459f70},{568,0x69239f38fb691},{568,0x698af77f34bb7},{568,0x6ba1098d9cdb1},{568,0x78141d34c4154},{568,0x7d12a4670c122},{568,0x89fd22859e42c},{568,0x92462c52282bd},{568,0x9c33a31485543},{568,0xa0c53e485e235},{568,0xa1ca85e218cdb},{568,0xb0156502066a3},{568,0xb4113d89f1563},{568,0xbe604421f406b},{568,0xbee2dbb26e8b5},{568,0xc172045e949c5},{568,0xc22dd1dce98a5},{568,0xc386c7c8c2c1b},{568,0xcdee98dba97c9},{568,0xce0d00f025093},{568,0xcf385642344d2},{568,0xddefd014605f0},{568,0xde887cfbdc940},{568,0xed03517eead11},{568,0xf6387b7d94764},
{569,0x61bcfa1335f0},{569,0xac0f10a7ef64},{569,0xd9c02406bd5c},{569,0xde01629c42e5},{569,0xff4d993f253b},{569,0x17af9eb35b097},{569,0x1dc1c98da80f4},{569,0x1f9fcda46e026},{569,0x20ee93a2b17e2},{569,0x253ec0e16141f},{569,0x3ec80669009ca},{569,0x5bdd0a60c50a0},{569,0x5f2df5e675a0f},{569,0x65417a209b510},{569,0x65e06e1ea62fd},{569,0x67a90d442c655},{569,0x6ba1098d9cdb1},{569,0x712a0f43d3b19},{569,0x7dd8ccd104372},{569,0x8534c7a23d94b},{569,0x8cf8d5d44bc30},{569,0x9d6d582a39c3b},{569,0xb0156502066a3},{569,0xbd32fd33a6a64},{569,0xbe52df3f4f644},{569,0xbee2dbb26e8b5},{569,0xc01acf01995c8},{569,0xc172045e949c5},{569,0xc386c7c8c2c1b},{569,0xc9a610dacde06},{569,0xcdee98dba97c9},{569,0xd0858e95ec4ea},{569,0xdc574d80cf16b},{569,0xde887cfbdc940},{569,0xed03517eead11},{569,0xf6387b7d94764},{569,0xfc4aa657e17c1},{569,0xfc7e79c64db50},
{570,0x28917d937f7e},{570,0x61bcfa1335f0},{570,0x92d8fddd3f4a},{570,0xac0f10a7ef64},{570,0xd9c02406bd5c},{570,0x1466aec120fb8},{570,0x17af9eb35b097},{570,0x1dc1c98da80f4},{570,0x1f9fcda46e026},{570,0x2682298eba4a1},{570,0x373ceb52d4ade},{570,0x3ac491b6f849d},{570,0x3c1c9fd1292c5},{570,0x3c9e85e704587},{570,0x3ec80669009ca},{570,0x4dcd4b2f56233},{570,0x506a7522f8a80},{570,0x5f2df5e675a0f},{570,0x65417a209b510},{570,0x65e06e1ea62fd},{570,0x67a90d442c655},{570,0x6ba1098d9cdb1},{570,0x7dd8ccd104372},{570,0x8534c7a23d94b},{570,0x871f007a1693f},{570,0x948d88d16080d},{570,0x97d9c23e30f7c},{570,0xb0156502066a3},{570,0xb3eb0e2c68a96},{570,0xbe91d8a8c2254},{570,0xbf94f9d0df41f},{570,0xc172045e949c5},{570,0xccab2341e1a33},{570,0xcdee98dba97c9},{570,0xd6192481f51a9},{570,0xd7e442252eaa1},{570,0xdb29a53f96e96},{570,0xde887cfbdc940},{570,0xec3580da3f28e},{570,0xed03517eead11},{570,0xee567febc8b7d},{570,0xfc4aa657e17c1},
{571,0x28917d937f7e},{571,0xac0f10a7ef64},{571,0xd9c02406bd5c},{571,0x1466aec120fb8},{571,0x17af9eb35b097},{571,0x1b5afdb6a8b23},{571,0x3c9e85e704587},{571,0x3ec80669009ca},{571,0x4dcd4b2f56233},{571,0x506a7522f8a80},{571,0x5f2df5e675a0f},{571,0x5f55ff9b73cfd},{571,0x65417a209b510},{571,0x7ce8c18d557f5},{571,0x7dd8ccd104372},{571,0x7e1b4b0ac6731},{571,0x948d88d16080d},{571,0x9aa38d34355dc},{571,0xa300ee16428fa},{571,0xa50bf8c39bcfa},{571,0xa8eff5720f9bf},{571,0xaaffc697fa8e9},{571,0xabeb4533ee020},{571,0xac82ad3a0b031},{571,0xae4c091e08b6a},{571,0xb0156502066a3},{571,0xbe91d8a8c2254},{571,0xc172045e949c5},{571,0xccab2341e1a33},{571,0xcda23a209822f},{571,0xd101b2263200b},{571,0xd6192481f51a9},{571,0xd7e442252eaa1},{571,0xdb29a53f96e96},{571,0xe7f2238aea4fc},{571,0xee567febc8b7d},{571,0xf6a6b6eac682b},
{572,0x28917d937f7e},{572,0xa2833945c430},{572,0xac0f10a7ef64},{572,0xd9c02406bd5c},{572,0x1466aec120fb8},{572,0x17af9eb35b097},{572,0x269a1f3cbe8ab},{572,0x454261e6e0aa9},{572,0x506a7522f8a80},{572,0x531ed8ef00a99},{572,0x5f2df5e675a0f},{572,0x6b3d12ddea984},{572,0x7444e58d792d3},{572,0x7ce8c18d557f5},{572,0x7dd8ccd104372},{572,0x877e26e5dd66a},{572,0x935d14f9f5763},{572,0x96a24c3b8ea63},{572,0x9aa38d34355dc},{572,0xa50bf8c39bcfa},{572,0xa8eff5720f9bf},{572,0xaaffc697fa8e9},{572,0xabeb4533ee020},{572,0xae4c091e08b6a},{572,0xb638e57b47957},{572,0xbe91d8a8c2254},{572,0xc172045e949c5},{572,0xccab2341e1a33},{572,0xd5177a6549e39},{572,0xd7e442252eaa1},{572,0xd8e2ef77f9808},{572,0xe31d61087bb0f},{572,0xe391a4da62d6c},{572,0xe7f2238aea4fc},{572,0xe8b1105e95afd},{572,0xeb375acc837fc},{572,0xeb3a07ecd58f6},{572,0xee567febc8b7d},
{573,0x15ae9f11dbd0},{573,0x28917d937f7e},{573,0xa2833945c430},{573,0x1466aec120fb8},{573,0x163fde404827e},{573,0x17af9eb35b097},{573,0x2667175a8c617},{573,0x2809b2fb58f97},{573,0x33faa9e728065},{573,0x443cf5359a288},{573,0x506a7522f8a80},{573,0x586a907ba0574},{573,0x5f2df5e675a0f},{573,0x6bf44e046b075},{573,0x735730ba54911},{573,0x7424348ca1c9b},{573,0x7a1ef69751196},{573,0x7ce8c18d557f5},{573,0x835b4cccd486f},{573,0x96a24c3b8ea63},{573,0xa8eff5720f9bf},{573,0xae4c091e08b6a},{573,0xb1dec0e6041dc},{573,0xbbd574ecee18e},{573,0xbd0101dbcd84d},{573,0xbe91d8a8c2254},{573,0xc172045e949c5},{573,0xc70e93d03b1fc},{573,0xccab2341e1a33},{573,0xd247b2b38826a},{573,0xd4e5f04acbda5},{573,0xd5177a6549e39},{573,0xd7e442252eaa1},{573,0xdd80d196d52d8},{573,0xe391a4da62d6c},{573,0xe8b1105e95afd},{573,0xf3d3f028d4f8f},
{574,0x5b6897b65ce},{574,0x28917d937f7e},{574,0x47fbe6271406},{574,0x1466aec120fb8},{574,0x2d79d42a6c279},{574,0x34e09c418648b},{574,0x364bfe67842aa},{574,0x49944fe6ced3a},{574,0x4eed627e919bf},{574,0x506a7522f8a80},{574,0x51b5758e07e4b},{574,0x52b3b0ada9164},{574,0x579a162bfc095},{574,0x586a907ba0574},{574,0x5a33ec5f9e0ad},{574,0x5f2df5e675a0f},{574,0x7ce8c18d557f5},{574,0x835b4cccd486f},{574,0x880fed6567173},{574,0xa00129fe1b1a2},{574,0xa025934548dc9},{574,0xae4c091e08b6a},{574,0xb03d3333dc2b1},{574,0xb248728b9c116},{574,0xbe91d8a8c2254},{574,0xc70e93d03b1fc},{574,0xccab2341e1a33},{574,0xd247b2b38826a},{574,0xd4e5f04acbda5},{574,0xd51f3bcab7738},{574,0xd780d0ea802f7},{574,0xd93cc56f3ce65},{574,0xe391a4da62d6c},{574,0xf3d3f028d4f8f},
{575,0xa63840a15a9},{575,0x28917d937f7e},{575,0xb730b4074c14},{575,0x1aa433afee13f},{575,0x1bd3742c50f3d},{575,0x2e6df22102aca},{575,0x34e09c418648b},{575,0x3ec77ce6fb6cf},{575,0x42de8b7b0018a},{575,0x51b5758e07e4b},{575,0x579a162bfc095},{575,0x586a907ba0574},{575,0x5a33ec5f9e0ad},{575,0x5f2df5e675a0f},{575,0x6188cb8599b2d},{575,0x835b4cccd486f},{575,0xa00129fe1b1a2},{575,0xa28877a09a4e0},{575,0xa41783760c64f},{575,0xae4c091e08b6a},{575,0xaed8c3c041b5c},{575,0xb03d3333dc2b1},{575,0xb248728b9c116},{575,0xbe91d8a8c2254},{575,0xccab2341e1a33},{575,0xd247b2b38826a},{575,0xd93cc56f3ce65},{575,0xe391a4da62d6c},{575,0xed9775dce8a2e},
{576,0xa63840a15a9},{576,0x28917d937f7e},{576,0x171b276979574},{576,0x290fb949ea8f4},{576,0x2e6df22102aca},{576,0x3f1a1ab45d4a0},{576,0x420d84610765a},{576,0x42de8b7b0018a},{576,0x50c488a2b7617},{576,0x5a33ec5f9e0ad},{576,0x5f2df5e675a0f},{576,0x7424348ca1c9b},{576,0x76f96f3a4f7fe},{576,0x7a937f034e150},{576,0x835b4cccd486f},{576,0x87b5948d28e60},{576,0x954c328300b2a},{576,0xa1ba8f77759b6},{576,0xa28877a09a4e0},{576,0xae4c091e08b6a},{576,0xaed8c3c041b5c},{576,0xb03d3333dc2b1},{576,0xb248728b9c116},{576,0xbe91d8a8c2254},{576,0xccab2341e1a33},{576,0xd12d41afca3c2},{576,0xd8a6b43d255fb},{576,0xd8c4d1da8f702},{576,0xd93cc56f3ce65},{576,0xed9775dce8a2e},{576,0xf1bd397c18643},{576,0xf44c669e7d3a9},
{577,0x28917d937f7e},{577,0xb2997f2b21c4},{577,0x1aaf7fd7ce9d1},{577,0x1c4b12daaf77d},{577,0x20f850ee7c3ea},{577,0x224b4e1d1faec},{577,0x42de8b7b0018a},{577,0x434c40da2c8da},{577,0x441ed79830181},{577,0x49db5afe929ad},{577,0x5a33ec5f9e0ad},{577,0x5eb9053f2716d},{577,0x5f2df5e675a0f},{577,0x705b32564f5f0},{577,0x76f96f3a4f7fe},{577,0x7a3d1434bb29c},{577,0x7a937f034e150},{577,0x835b4cccd486f},{577,0x936f87d0bfd70},{577,0x99b858e76d789},{577,0x9bf963e082888},{577,0xa28877a09a4e0},{577,0xaed8c3c041b5c},{577,0xb03d3333dc2b1},{577,0xb248728b9c116},{577,0xb97a8f2b552f7},{577,0xbe91d8a8c2254},{577,0xc481028735cd9},{577,0xccab2341e1a33},{577,0xd12d41afca3c2},{577,0xd8c4d1da8f702},{577,0xd93cc56f3ce65},{577,0xe9fd6613ea0dc},{577,0xeb03075869ecc},{577,0xf1bd397c18643},{577,0xf435b2c0e8c3c},{577,0xf44c669e7d3a9},
{578,0x126a32fb2bd35},{578,0x1415198b8806c},{578,0x14ea0793fafd2},{578,0x1b5bc17cd5bb3},{578,0x20f850ee7c3ea},{578,0x2694e06022c21},{578,0x270411b6d91a7},{578,0x2e5d6ab24373e},{578,0x3a0bfebd384f0},{578,0x42de8b7b0018a},{578,0x434c40da2c8da},{578,0x441ed79830181},{578,0x49db5afe929ad},{578,0x4e4fce1091f19},{578,0x5a33ec5f9e0ad},{578,0x5eb9053f2716d},{578,0x5f2df5e675a0f},{578,0x76f96f3a4f7fe},{578,0x79f622a385c1b},{578,0x7a3d1434bb29c},{578,0x7a937f034e150},{578,0x8b6677d56be65},{578,0x9151d270f5b83},{578,0x92e9197d489ad},{578,0x936f87d0bfd70},{578,0x966df8c775133},{578,0x99b858e76d789},{578,0xa28877a09a4e0},{578,0xaed8c3c041b5c},{578,0xb03d3333dc2b1},{578,0xb248728b9c116},{578,0xb97a8f2b552f7},{578,0xbbd3d9b5a8e0c},{578,0xc481028735cd9},{578,0xc95baa4d490ae},{578,0xd33f12a6426a9},{578,0xd93cc56f3ce65},{578,0xeb03075869ecc},{578,0xf1bd397c18643},{578,0xf44c669e7d3a9},{578,0xf8fefbb3249d3},
{579,0xa861327e230e},{579,0xd7752065c537},{579,0x126a32fb2bd35},{579,0x1415198b8806c},{579,0x14ea0793fafd2},{579,0x20f850ee7c3ea},{579,0x232a7071642f1},{579,0x2694e06022c21},{579,0x270411b6d91a7},{579,0x2e5d6ab24373e},{579,0x3a0bfebd384f0},{579,0x429d2329e020e},{579,0x42de8b7b0018a},{579,0x434c40da2c8da},{579,0x441ed79830181},{579,0x5a33ec5f9e0ad},{579,0x5eb9053f2716d},{579,0x7353a79c65331},{579,0x75d37c35345cd},{579,0x76f96f3a4f7fe},{579,0x7a937f034e150},{579,0x8b6677d56be65},{579,0x99b858e76d789},{579,0x9f5f0b5df87bb},{579,0xa999740961540},{579,0xaed8c3c041b5c},{579,0xb248728b9c116},{579,0xb2db9d4223fed},{579,0xb97a8f2b552f7},{579,0xc481028735cd9},{579,0xc95baa4d490ae},{579,0xcee7254322f6d},{579,0xd12d41afca3c2},{579,0xd93cc56f3ce65},{579,0xdcce63542f4a7},{579,0xe91de09130c1c},{579,0xe9a2f9b0731f8},{579,0xf1bd397c18643},{579,0xf44c669e7d3a9},{579,0xf8fefbb3249d3},{579,0xfa9f3f23c0df4},
{580,0x5a974f2e1c1d},{580,0x60d719c32c14},{580,0xa861327e230e},{580,0xace64b5dac1a},{580,0x14ea0793fafd2},{580,0x20f850ee7c3ea},{580,0x22bc490dde659},{580,0x2694e06022c21},{580,0x270411b6d91a7},{580,0x3682e5b7fb64f},{580,0x3a0bfebd384f0},{580,0x434c40da2c8da},{580,0x441ed79830181},{580,0x5a33ec5f9e0ad},{580,0x5eb9053f2716d},{580,0x7f4680a2370e5},{580,0x96d015412506d},{580,0x97079979d0f4a},{580,0x9c359f1b56a95},{580,0x9f5f0b5df87bb},{580,0xa999740961540},{580,0xaed8c3c041b5c},{580,0xb248728b9c116},{580,0xb2db9d4223fed},{580,0xb41a6d94cd986},{580,0xb956231ec7ded},{580,0xb97a8f2b552f7},{580,0xc11c335fef35c},{580,0xc481028735cd9},{580,0xc95baa4d490ae},{580,0xce93db622d96a},{580,0xcee7254322f6d},{580,0xd12d41afca3c2},{580,0xd589ae4d70218},{580,0xd93cc56f3ce65},{580,0xe91de09130c1c},{580,0xed2541f4c264f},{580,0xf44c669e7d3a9},{580,0xf8fefbb3249d3},{580,0xfb104eea4d4fa},
{581,0x4ddc2361a467},{581,0x5a974f2e1c1d},{581,0x60d719c32c14},{581,0xa861327e230e},{581,0x14ea0793fafd2},{581,0x181373d69ccf7},{581,0x20f850ee7c3ea},{581,0x2694e06022c21},{581,0x270411b6d91a7},{581,0x2cd6ab14afca0},{581,0x3a0bfebd384f0},{581,0x434c40da2c8da},{581,0x440a0026fc8dd},{581,0x441ed79830181},{581,0x4887f66426d41},{581,0x5a248978f9bc6},{581,0x5a33ec5f9e0ad},{581,0x5c2af213e7695},{581,0x5eb9053f2716d},{581,0x6cb83ed123607},{581,0x702a3b59c360b},{581,0x7f4680a2370e5},{581,0x9c0ad14d1f5ad},{581,0x9c359f1b56a95},{581,0x9f5f0b5df87bb},{581,0xa52c891cf61ad},{581,0xa999740961540},{581,0xb248728b9c116},{581,0xb2db9d4223fed},{581,0xb2ebf7566bfcc},{581,0xb41a6d94cd986},{581,0xc11c335fef35c},{581,0xc481028735cd9},{581,0xc84102dce9f1f},{581,0xc95baa4d490ae},{581,0xd589ae4d70218},{581,0xd93cc56f3ce65},{581,0xe4998d42f73af},{581,0xf6f8ef0612aaa},{581,0xf8fefbb3249d3},{581,0xf9af3f0e53d63},
{582,0x5a974f2e1c1d},{582,0xa861327e230e},{582,0x1058dfc40320e},{582,0x14ea0793fafd2},{582,0x2718b5ab844af},{582,0x2cd6ab14afca0},{582,0x2e1925b76673c},{582,0x4212216c28aa6},{582,0x441ed79830181},{582,0x5a248978f9bc6},{582,0x5c2af213e7695},{582,0x5cf929e6b23a7},{582,0x5eb9053f2716d},{582,0x6dd7b76a78bfe},{582,0x702a3b59c360b},{582,0x7f4680a2370e5},{582,0x862fed3a8d050},{582,0x8c6af793ce579},{582,0x8fc9ee09a3afa},{582,0x9e847ded10958},{582,0x9f5f0b5df87bb},{582,0xa52c891cf61ad},{582,0xa999740961540},{582,0xb248728b9c116},{582,0xb2db9d4223fed},{582,0xb41a6d94cd986},{582,0xc481028735cd9},{582,0xc95baa4d490ae},{582,0xd589ae4d70218},{582,0xd5ed4c7aa44e0},{582,0xd996b4529268d},{582,0xe4998d42f73af},{582,0xe62d9572bf10b},{582,0xeaa0eadeb9f92},{582,0xeaf2ad4421eed},{582,0xf8fefbb3249d3},
{583,0x3833127a272e},{583,0x5a974f2e1c1d},{583,0xa861327e230e},{583,0x1661154f33066},{583,0x1ed75c226ce48},{583,0x22bc490dde659},{583,0x2cd6ab14afca0},{583,0x3205dc0e47f3b},{583,0x391bfea7cb45f},{583,0x441ed79830181},{583,0x4d57313f9444f},{583,0x4f21b08894ea4},{583,0x5a248978f9bc6},{583,0x5cf929e6b23a7},{583,0x5fbe676dc66a1},{583,0x652762695e8e9},{583,0x702a3b59c360b},{583,0x77405df346b2f},{583,0xa4d5d941a482d},{583,0xa52c891cf61ad},{583,0xb23b50fc204da},{583,0xb248728b9c116},{583,0xb2db9d4223fed},{583,0xb41a6d94cd986},{583,0xbc7adfd845724},{583,0xd589ae4d70218},{583,0xd5ed4c7aa44e0},{583,0xe62d9572bf10b},{583,0xf8fefbb3249d3},
{584,0x3833127a272e},{584,0x543e9a7b2626},{584,0x5a974f2e1c1d},{584,0x704a227c251e},{584,0xa861327e230e},{584,0x131e1d4b17508},{584,0x1661154f33066},{584,0x2377f1d121786},{584,0x2cd6ab14afca0},{584,0x441ed79830181},{584,0x4d57313f9444f},{584,0x4f21b08894ea4},{584,0x5a248978f9bc6},{584,0x5cf929e6b23a7},{584,0x5fbe676dc66a1},{584,0x68b273b62037b},{584,0x738cca4c5ef7e},{584,0x75f561ce5193f},{584,0x77405df346b2f},{584,0x7b88c63385f61},{584,0x81302cb10ff5c},{584,0x99c2635929aad},{584,0x9ae69a532482d},{584,0xa4d5d941a482d},{584,0xa52c891cf61ad},{584,0xac5eb1907583a},{584,0xb23b50fc204da},{584,0xb248728b9c116},{584,0xb2db9d4223fed},{584,0xb41a6d94cd986},{584,0xbc7adfd845724},{584,0xc7e44342e338d},{584,0xd589ae4d70218},{584,0xf6b288ccdf5f6},{584,0xf79c5cef9a856},{584,0xf8fefbb3249d3},
{585,0x2a9ea467fb42},{585,0x543e9a7b2626},{585,0x5a974f2e1c1d},{585,0x65c1d56d481d},{585,0xa861327e230e},{585,0x13472f79d885e},{585,0x2377f1d121786},{585,0x256b45bbd14e0},{585,0x2cd6ab14afca0},{585,0x35f7b57395a1c},{585,0x441ed79830181},{585,0x4d57313f9444f},{585,0x4d5c27e23415b},{585,0x4f21b08894ea4},{585,0x57036be2dfdfe},{585,0x593f96c07818a},{585,0x5a248978f9bc6},{585,0x5cf929e6b23a7},{585,0x6d989b112b583},{585,0x738cca4c5ef7e},{585,0x73b1512b9e52e},{585,0x75f561ce5193f},{585,0x81302cb10ff5c},{585,0x81c76f4065ccd},{585,0x86ad022aa2d88},{585,0x9296a9c732d4f},{585,0x9ae69a532482d},{585,0xac5eb1907583a},{585,0xadecf59b1ef6f},{585,0xb23b50fc204da},{585,0xb2db9d4223fed},{585,0xb41a6d94cd986},{585,0xb65d0e4243ddd},{585,0xba42e9840e25c},{585,0xbc7adfd845724},{585,0xd589ae4d70218},{585,0xe9081ee3b22cb},{585,0xf8b708f381731},{585,0xf8fefbb3249d3},
{586,0x1c278a792836},{586,0x2a9ea467fb42},{586,0x543e9a7b2626},{586,0xa861327e230e},{586,0x13472f79d885e},{586,0x17c04aad97bf1},{586,0x1c0d4828818be},{586,0x1c61cf379e262},{586,0x256b45bbd14e0},{586,0x2bd22b564d58c},{586,0x2cd6ab14afca0},{586,0x35f7b57395a1c},{586,0x41ed0b7bc7d4f},{586,0x441ed79830181},{586,0x57036be2dfdfe},{586,0x593f96c07818a},{586,0x5cf929e6b23a7},{586,0x62c1403afc69c},{586,0x738cca4c5ef7e},{586,0x73b1512b9e52e},{586,0x7b2d144a2832e},{586,0x81c76f4065ccd},{586,0x8408bf8a0c59b},{586,0x86ad022aa2d88},{586,0x9d63b7dfb8387},{586,0xa2ea1caaba24d},{586,0xad9973c1f4305},{586,0xadecf59b1ef6f},{586,0xb23b50fc204da},{586,0xb2db9d4223fed},{586,0xb34bcb6227fab},{586,0xb3bbf9822bf69},{586,0xb41a6d94cd986},{586,0xb65d0e4243ddd},{586,0xbdcb7da4b4ac4},{586,0xc1f75c9b6b57c},{586,0xd589ae4d70218},{586,0xd7d12bac31944},{586,0xd96b78438293d},{586,0xe187d8fef8584},{586,0xe9081ee3b22cb},{586,0xebe2a854a548b},{586,0xf8fefbb3249d3},
{587,0x2a9ea467fb42},{587,0x543e9a7b2626},{587,0x62445e7ba5a2},{587,0xdf72a13ba11f},{587,0x15cccbe72b676},{587,0x190f45ce22b53},{587,0x1c0d4828818be},{587,0x2cd6ab14afca0},{587,0x30405367e71f2},{587,0x35f7b57395a1c},{587,0x3fb101f83e04b},{587,0x41ed0b7bc7d4f},{587,0x441ed79830181},{587,0x593f96c07818a},{587,0x5cf929e6b23a7},{587,0x62c1403afc69c},{587,0x6c19cc49f7ead},{587,0x6ff64c758d789},{587,0x738cca4c5ef7e},{587,0x73b1512b9e52e},{587,0x86ad022aa2d88},{587,0x8a7e489b8e5bb},{587,0x8f0b987a712bd},{587,0x9d63b7dfb8387},{587,0xa2ea1caaba24d},{587,0xad9973c1f4305},{587,0xb1fb41021c071},{587,0xb23b50fc204da},{587,0xb34bcb6227fab},{587,0xb41a6d94cd986},{587,0xbdcb7da4b4ac4},{587,0xc1f75c9b6b57c},{587,0xcad12349e2f85},{587,0xd589ae4d70218},{587,0xd625638aa64bf},{587,0xd7d12bac31944},{587,0xd96b78438293d},{587,0xd9f8595cb23f9},{587,0xe9081ee3b22cb},{587,0xe940d9562373c},{587,0xf8fefbb3249d3},
{588,0x2a9ea467fb42},{588,0x3f35f47a66ec},{588,0x543e9a7b2626},{588,0x62445e7ba5a2},{588,0x15cccbe72b676},{588,0x190f45ce22b53},{588,0x25b4537a50040},{588,0x2cd6ab14afca0},{588,0x30405367e71f2},{588,0x35f7b57395a1c},{588,0x3b0437da6a77d},{588,0x41ed0b7bc7d4f},{588,0x4ca08ee3577df},{588,0x61dce0c1252f3},{588,0x6995380950a1f},{588,0x6c19cc49f7ead},{588,0x738cca4c5ef7e},{588,0x73b1512b9e52e},{588,0x79e1998c25270},{588,0x86ad022aa2d88},{588,0x8bc116d237cc7},{588,0x9ad456e384d55},{588,0x9d63b7dfb8387},{588,0xa2ea1caaba24d},{588,0xad9973c1f4305},{588,0xb1fb41021c071},{588,0xb23b50fc204da},{588,0xb34bcb6227fab},{588,0xb41a6d94cd986},{588,0xb42c27a22ff27},{588,0xbdcb7da4b4ac4},{588,0xc165411e6debc},{588,0xc8607d1bdaaeb},{588,0xc88798b8cdb1c},{588,0xd96b78438293d},{588,0xd9f8595cb23f9},{588,0xe9081ee3b22cb},{588,0xf8fefbb3249d3},
{589,0x2a9ea467fb42},{589,0x50bd297b0647},{589,0x543e9a7b2626},{589,0x62445e7ba5a2},{589,0x797b508ac88b},{589,0xac9f2f6c6954},{589,0x1d85232f56da3},{589,0x1ea877270f8e3},{589,0x25b4537a50040},{589,0x2a09bed446968},{589,0x3b0437da6a77d},{589,0x4ca08ee3577df},{589,0x54b4a59c409f1},{589,0x6995380950a1f},{589,0x6bde6cff9e9b1},{589,0x6c19cc49f7ead},{589,0x738cca4c5ef7e},{589,0x73b1512b9e52e},{589,0x79e1998c25270},{589,0x86ad022aa2d88},{589,0x9a7905b56671d},{589,0x9ad456e384d55},{589,0x9bd68b986ce9a},{589,0x9d63b7dfb8387},{589,0x9e5ad7ea9d9be},{589,0xad9973c1f4305},{589,0xb313b45225fcc},{589,0xb34bcb6227fab},{589,0xb5a54ce34a69c},{589,0xb88df4e257c93},{589,0xbdcb7da4b4ac4},{589,0xc6463225ab7ec},{589,0xd09be38b434cf},{589,0xd96b78438293d},{589,0xd9f8595cb23f9},{589,0xdfc06fb0fc6ee},{589,0xe9081ee3b22cb},{589,0xe911409b82037},{589,0xedd6dd8cfb389},{589,0xf8fefbb3249d3},
{590,0x50bd297b0647},{590,0x62445e7ba5a2},{590,0x797b508ac88b},{590,0xac9f2f6c6954},{590,0x1bebdf578b2f3},{590,0x25b4537a50040},{590,0x26e2bb4b9efca},{590,0x39d8c0a95239c},{590,0x3b0437da6a77d},{590,0x4ca08ee3577df},{590,0x57eca77fdd646},{590,0x5c9bfd1cf02b7},{590,0x6995380950a1f},{590,0x6c19cc49f7ead},{590,0x72f2d02598c47},{590,0x738cca4c5ef7e},{590,0x73b1512b9e52e},{590,0x7c506841e0e6e},{590,0x8d7d6be0f60ee},{590,0x902eec7229dfe},{590,0x95df9048c5640},{590,0x9ad456e384d55},{590,0x9e5ad7ea9d9be},{590,0xa2a4f2a190977},{590,0xb313b45225fcc},{590,0xb5a54ce34a69c},{590,0xbdcb7da4b4ac4},{590,0xc1ee3ae39b810},{590,0xcec5f6aad88d9},{590,0xd09be38b434cf},{590,0xdedbc994c5e04},{590,0xdfc06fb0fc6ee},{590,0xf0bae8b720503},{590,0xff0ef86a60ee9},
{591,0x3084a6129fdd},{591,0x50bd297b0647},{591,0x62445e7ba5a2},{591,0xac9f2f6c6954},{591,0x1bebdf578b2f3},{591,0x256fd697b9396},{591,0x26e2bb4b9efca},{591,0x30d3e7da5047f},{591,0x399deb842f419},{591,0x39d8c0a95239c},{591,0x467fdb6b9e3bc},{591,0x483bf9aa77cf5},{591,0x4ca08ee3577df},{591,0x57eca77fdd646},{591,0x5c9bfd1cf02b7},{591,0x6c19cc49f7ead},{591,0x720fd99e3c215},{591,0x73b1512b9e52e},{591,0x7c506841e0e6e},{591,0x8d7d6be0f60ee},{591,0x944c0e8471971},{591,0x9ad456e384d55},{591,0x9e5ad7ea9d9be},{591,0xa2a4f2a190977},{591,0xacd1049e90caf},{591,0xb313b45225fcc},{591,0xb5a54ce34a69c},{591,0xbe0835728995a},{591,0xbf02e4ff928c3},{591,0xcbca790304cac},{591,0xd09be38b434cf},{591,0xd47863b6d8dab},{591,0xdedbc994c5e04},{591,0xdfc06fb0fc6ee},{591,0xeb2f196bee3aa},{591,0xf0bae8b720503},
{592,0x5194f202b111},{592,0x62445e7ba5a2},{592,0x6a094fdc7254},{592,0x1465bff38f4dd},{592,0x1aefdd3900563},{592,0x1bebdf578b2f3},{592,0x23ebbd93b8128},{592,0x256fd697b9396},{592,0x30d3e7da5047f},{592,0x3286fb5758873},{592,0x46a6cb9434fee},{592,0x4ad7f8fcbf8c7},{592,0x4ca08ee3577df},{592,0x4d7c6fb4783a9},{592,0x57eca77fdd646},{592,0x5c9bfd1cf02b7},{592,0x62163dad21f7e},{592,0x62e6d72d6dfb0},{592,0x6871e41197edf},{592,0x6c19cc49f7ead},{592,0x71c43465c7066},{592,0x78e7d734daaff},{592,0x8741afd097994},{592,0x98b06fcece805},{592,0x9da9a6a0b9b99},{592,0x9e5ad7ea9d9be},{592,0xa9e1cf0350c6d},{592,0xacd1049e90caf},{592,0xb313b45225fcc},{592,0xbf02e4ff928c3},{592,0xd47863b6d8dab},{592,0xdedbc994c5e04},{592,0xe05c235e6b5ee},{592,0xe6bfed60247e2},{592,0xe913890975f92},{592,0xeb2f196bee3aa},{592,0xf0bae8b720503},
{593,0x5194f202b111},{593,0x62445e7ba5a2},{593,0x6a094fdc7254},{593,0x1187500e0e821},{593,0x1613c8264ef26},{593,0x1aefdd3900563},{593,0x1bebdf578b2f3},{593,0x23ebbd93b8128},{593,0x25e1e289a84f1},{593,0x32e08e6ce754c},{593,0x341d41ca6e290},{593,0x4ad7f8fcbf8c7},{593,0x4d7c6fb4783a9},{593,0x5af729e308144},{593,0x5c9bfd1cf02b7},{593,0x62e6d72d6dfb0},{593,0x71c43465c7066},{593,0x73feefc604f44},{593,0x78e7d734daaff},{593,0x7aea1beba5b0a},{593,0x7d79807e1af61},{593,0x8741afd097994},{593,0x98b06fcece805},{593,0x9aeb2b2f0c6e3},{593,0xa9e1cf0350c6d},{593,0xacd1049e90caf},{593,0xb313b45225fcc},{593,0xc1d7669813e82},{593,0xd47863b6d8dab},{593,0xdedbc994c5e04},{593,0xe05c235e6b5ee},{593,0xe688e6a0dd743},{593,0xe8c3a2011b621},{593,0xe9cdcee56dd92},{593,0xf0dcc6d93392a},{593,0xf43aa78eb457d},
{594,0x5194f202b111},{594,0x62445e7ba5a2},{594,0x6a094fdc7254},{594,0x1187500e0e821},{594,0x1613c8264ef26},{594,0x1bebdf578b2f3},{594,0x1d20c3d914419},{594,0x2068dfe15452a},{594,0x23ebbd93b8128},{594,0x25e1e289a84f1},{594,0x341d41ca6e290},{594,0x4d7c6fb4783a9},{594,0x5439cccbc0276},{594,0x5af729e308144},{594,0x62e6d72d6dfb0},{594,0x68451a86d0872},{594,0x78e7d734daaff},{594,0x8741afd097994},{594,0x899e58e5a959d},{594,0x8be494f1c991f},{594,0x9aeb2b2f0c6e3},{594,0xa655429f056fd},{594,0xb447db0037c32},{594,0xbd66d32aef254},{594,0xbe4fbed474f11},{594,0xc1d7669813e82},{594,0xd09dee8444665},{594,0xd47863b6d8dab},{594,0xdedbc994c5e04},{594,0xe454cc3d19dcb},{594,0xe688e6a0dd743},{594,0xe9cdcee56dd92},{594,0xfaf804a5fc44b},
{595,0x4395f6a460f3},{595,0x62445e7ba5a2},{595,0x6a094fdc7254},{595,0x1187500e0e821},{595,0x1613c8264ef26},{595,0x18f53c08eafee},{595,0x1d84b81e46aff},{595,0x2068dfe15452a},{595,0x23ebbd93b8128},{595,0x25e1e289a84f1},{595,0x341d41ca6e290},{595,0x390de7d06a41e},{595,0x3ce6354a6f84a},{595,0x5439cccbc0276},{595,0x61b486fa50011},{595,0x62e6d72d6dfb0},{595,0x78e7d734daaff},{595,0x8741afd097994},{595,0x899e58e5a959d},{595,0x8be494f1c991f},{595,0xa497f55a198d2},{595,0xa70bb7812fae3},{595,0xaaf79744822c7},{595,0xb4fd3e220a5c5},{595,0xb82a9c6d06c93},{595,0xbd66d32aef254},{595,0xc6d5bf31c7c32},{595,0xce70c19bc9eaf},{595,0xe454cc3d19dcb},{595,0xe688e6a0dd743},{595,0xe9cdcee56dd92},
{596,0x292569b4b6b4},{596,0x6a094fdc7254},{596,0xa2d2162127c4},{596,0x11b41998d5e8e},{596,0x1d84b81e46aff},{596,0x1e4ee41180c0a},{596,0x23ebbd93b8128},{596,0x25e1e289a84f1},{596,0x2689fffcb28ee},{596,0x341d41ca6e290},{596,0x4001b585e860e},{596,0x47ada06f676f6},{596,0x4b3647a990aff},{596,0x52c21ba25ab44},{596,0x5439cccbc0276},{596,0x61b486fa50011},{596,0x6203b4145b254},{596,0x62e6d72d6dfb0},{596,0x669e8b8491610},{596,0x77f90a669419a},{596,0x7a295212b91d0},{596,0x7d72a7343f150},{596,0x7f98b2082129f},{596,0x8741afd097994},{596,0x8be494f1c991f},{596,0x8f43b2131bba6},{596,0xa70bb7812fae3},{596,0xaaf79744822c7},{596,0xb1b4f45bca195},{596,0xb1fb907c137b1},{596,0xb82a9c6d06c93},{596,0xbba08cf8c979c},{596,0xbbd4d302ba0a4},{596,0xbd66d32aef254},{596,0xc52f7fa870ccf},{596,0xd5dc3324a7209},{596,0xd6567c80e32f0},{596,0xdf4fea92e1415},{596,0xe688e6a0dd743},{596,0xe9cdcee56dd92},{596,0xf13f29e6e0950},{596,0xfcc86e8dae9a8},
{597,0xa2d2162127c4},{597,0x133f0a1781bee},{597,0x168a237cd29a0},{597,0x1b9563d59ce8b},{597,0x1e4ee41180c0a},{597,0x1f542648e3ccf},{597,0x23ebbd93b8128},{597,0x25e1e289a84f1},{597,0x2689fffcb28ee},{597,0x28dae78f5f24e},{597,0x345d7fe3ebaff},{597,0x3689fc47c03ba},{597,0x39957dc1d7837},{597,0x41e908b9339c9},{597,0x47ada06f676f6},{597,0x4b3647a990aff},{597,0x5b40478254ab7},{597,0x6203b4145b254},{597,0x62e6d72d6dfb0},{597,0x669e8b8491610},{597,0x77f90a669419a},{597,0x78db54f0d93d1},{597,0x791544a044dab},{597,0x8be494f1c991f},{597,0x8f43b2131bba6},{597,0x8fb5439fa5254},{597,0x900222e762791},{597,0xa70bb7812fae3},{597,0xaaf79744822c7},{597,0xb0e36ca600f96},{597,0xb1b4f45bca195},{597,0xb1fb907c137b1},{597,0xbba08cf8c979c},{597,0xbbd4d302ba0a4},{597,0xbd66d32aef254},{597,0xcb282e5c96abe},{597,0xd5dc3324a7209},{597,0xd6567c80e32f0},{597,0xe688e6a0dd743},{597,0xe69fc6e25fd81},{597,0xe7fd67de77392},{597,0xe9cdcee56dd92},{597,0xeb1862b639254},{597,0xf13f29e6e0950},{597,0xfcc86e8dae9a8},
{598,0x133f0a1781bee},{598,0x168a237cd29a0},{598,0x193875fa0e608},{598,0x1b9563d59ce8b},{598,0x1e4ee41180c0a},{598,0x2689fffcb28ee},{598,0x28dae78f5f24e},{598,0x3452248911254},{598,0x345d7fe3ebaff},{598,0x39957dc1d7837},{598,0x3fc9e3c6be2ff},{598,0x4cb869ba971b5},{598,0x5ee835aa13f6d},{598,0x60c0dd60aa634},{598,0x62e6d72d6dfb0},{598,0x632feee509bd9},{598,0x6beeb982dde51},{598,0x6d47edf5949f1},{598,0x77f90a669419a},{598,0x791544a044dab},{598,0x8be494f1c991f},{598,0x8c1fc29d0b65c},{598,0x8f43b2131bba6},{598,0x900222e762791},{598,0x99e6eeb4a711f},{598,0x9fa506e6297e9},{598,0xa5721f85f29a1},{598,0xa70bb7812fae3},{598,0xb1fb907c137b1},{598,0xbba08cf8c979c},{598,0xbd485b570eb75},{598,0xbd66d32aef254},{598,0xd43f9af094254},{598,0xd5dc3324a7209},{598,0xd6567c80e32f0},{598,0xe688e6a0dd743},{598,0xe69fc6e25fd81},{598,0xe9cdcee56dd92},{598,0xeae7801d559ed},{598,0xeb1862b639254},
{599,0xb9cf91616e29},{599,0x133f0a1781bee},{599,0x193875fa0e608},{599,0x1b9563d59ce8b},{599,0x1c401d16b44d1},{599,0x1d4780941a86e},{599,0x23113411bcd5e},{599,0x28dae78f5f24e},{599,0x3452248911254},{599,0x3a13b1d554eff},{599,0x3fc9e3c6be2ff},{599,0x4cb869ba971b5},{599,0x56211fff0b631},{599,0x62e6d72d6dfb0},{599,0x6d47edf5949f1},{599,0x77f90a669419a},{599,0x78b8cb7d2204a},{599,0x791544a044dab},{599,0x8be494f1c991f},{599,0x8d5d601f6d05b},{599,0x8ef524ff78b01},{599,0x8f43b2131bba6},{599,0x900222e762791},{599,0xa0785abdc6159},{599,0xa68e0b654a254},{599,0xb1fb907c137b1},{599,0xb77ea7d96c685},{599,0xbba08cf8c979c},{599,0xbcd925ea55a32},{599,0xc8dbc25253555},{599,0xcf6531a7b350a},{599,0xd5dc3324a7209},{599,0xdcab641ae4116},{599,0xe688e6a0dd743},{599,0xe9cdcee56dd92},{599,0xeae7801d559ed},{599,0xeb1862b639254},{599,0xf684c6990ba54},{599,0xf808677549111},
{600,0x133f0a1781bee},{600,0x1b9563d59ce8b},{600,0x1c401d16b44d1},{600,0x1d4780941a86e},{600,0x25f60dd08dfd6},{600,0x30d3e2e2b0d0b},{600,0x3452248911254},{600,0x3ceecace098ff},{600,0x3fc9e3c6be2ff},{600,0x48e84e06431a1},{600,0x4cb869ba971b5},{600,0x6d7017f72da54},{600,0x702cc7b465c69},{600,0x7311a17336ee1},{600,0x78b8cb7d2204a},{600,0x791544a044dab},{600,0x8ef524ff78b01},{600,0x8f43b2131bba6},{600,0xa0785abdc6159},{600,0xa68e0b654a254},{600,0xabeb40de27ca5},{600,0xb1fb907c137b1},{600,0xb77ea7d96c685},{600,0xbba08cf8c979c},{600,0xbf1e0535dc315},{600,0xc8dbc25253555},{600,0xcf6531a7b350a},{600,0xdfabfed366a54},{600,0xe688e6a0dd743},{600,0xf808677549111},{600,0xfc3af88a74e54},
{601,0x1b9563d59ce8b},{601,0x1c401d16b44d1},{601,0x20661497a13ea},{601,0x25bfbc2154771},{601,0x25f60dd08dfd6},{601,0x2bbfc14e304c6},{601,0x30d40f974c01f},{601,0x3ceecace098ff},{601,0x3e5c574a63dff},{601,0x4253f8e5b436f},{601,0x48e84e06431a1},{601,0x4cb869ba971b5},{601,0x52c1f3e55efa4},{601,0x6441dd33c72f4},{601,0x655d7f25f989f},{601,0x6eba5ad4fd32d},{601,0x7311a17336ee1},{601,0x791544a044dab},{601,0x80d619f826ef2},{601,0x862fc181da279},{601,0xa0785abdc6159},{601,0xa66bec6df932d},{601,0xa68e0b654a254},{601,0xa939f59cecc85},{601,0xacf2a45b8e041},{601,0xb8f114b8d4fc1},{601,0xba6381983d8fd},{601,0xbba08cf8c979c},{601,0xc31d051c58654},{601,0xcf6531a7b350a},{601,0xdfabfed366a54},{601,0xe4c4e04918a68},{601,0xe873bdf63f7dc},{601,0xef3aa37e0f320},{601,0xf808677549111},{601,0xfc3af88a74e54},
{602,0x56ff1feefbe},{602,0x1544581b7dec1},{602,0x2483a0f12569a},{602,0x25bfbc2154771},{602,0x30d40f974c01f},{602,0x3ceecace098ff},{602,0x3da5910c36b7f},{602,0x3edb6552d0cf8},{602,0x48b042c25bd76},{602,0x50e11e401f654},{602,0x52c1f3e55efa4},{602,0x649960b921289},{602,0x6bd581162c0b5},{602,0x7311a17336ee1},{602,0x74b054620497d},{602,0x92173bd68a161},{602,0x923dc22deadda},{602,0x9fe684293ce22},{602,0xa0785abdc6159},{602,0xa4d9282d596ef},{602,0xa81da5cfed1fe},{602,0xba6381983d8fd},{602,0xbc7dc2cb3f0f2},{602,0xc8dbc25253555},{602,0xc97d91608fc59},{602,0xcc40611987935},{602,0xd1b9907676c10},{602,0xdfabfed366a54},{602,0xe4c4e04918a68},{602,0xedf37baeedc54},{602,0xef3aa37e0f320},{602,0xf3a774c489b95},{602,0xfc3af88a74e54},
{603,0x78d17fd47a6},{603,0x97badf67bc54},{603,0x2483a0f12569a},{603,0x25bfbc2154771},{603,0x2b5ae03a5cd44},{603,0x3d4a2ded2023f},{603,0x3d77df7cab6df},{603,0x3da5910c36b7f},{603,0x50e11e401f654},{603,0x5a956e225d672},{603,0x649960b921289},{603,0x67c78da99ac20},{603,0x6f739144b17cb},{603,0x8a94578fe556b},{603,0x92173bd68a161},{603,0x923dc22deadda},{603,0x98468e89c3054},{603,0xa0785abdc6159},{603,0xa2a8c1758fc24},{603,0xa4af20811ce79},{603,0xa81da5cfed1fe},{603,0xb65c5deba6d47},{603,0xb6c57169b81e7},{603,0xba6381983d8fd},{603,0xc8dbc25253555},{603,0xcc40611987935},{603,0xdfabfed366a54},{603,0xe5379a301c5d3},{603,0xf5173a1cb1554},{603,0xf54be7fdfadf9},{603,0xfc3af88a74e54},
{604,0x89a82fa60186},{604,0x1602f847d055d},{604,0x240e02bf608a0},{604,0x2483a0f12569a},{604,0x25bfbc2154771},{604,0x2652a90868225},{604,0x3d77df7cab6df},{604,0x406cbee7eabad},{604,0x5ecc513423d8f},{604,0x67c78da99ac20},{604,0x6f739144b17cb},{604,0x704fdddfd7e55},{604,0x76afb1a1bc5f7},{604,0x7d3df925cd24a},{604,0x923dc22deadda},{604,0x98468e89c3054},{604,0x9e4bc2d9fb93b},{604,0xa0785abdc6159},{604,0xa2a8c1758fc24},{604,0xa81da5cfed1fe},{604,0xab6a5c54b6750},{604,0xb42ba67bfdd5f},{604,0xb6c57169b81e7},{604,0xb8947980fad72},{604,0xbbf946ae94d54},{604,0xcc40611987935},{604,0xdfabfed366a54},
{605,0x89a82fa60186},{605,0x13d2919006a92},{605,0x1602f847d055d},{605,0x2483a0f12569a},{605,0x256b24fcc6c5f},{605,0x3d6106b4e5c8f},{605,0x3d77df7cab6df},{605,0x406cbee7eabad},{605,0x45eac8347da60},{605,0x4e61f991c4ed0},{605,0x67c78da99ac20},{605,0x6be9b3a41545e},{605,0x6da4892d6ec40},{605,0x6e8c0d3910206},{605,0x6f739144b17cb},{605,0x7493d664f1354},{605,0x7d3df925cd24a},{605,0x923dc22deadda},{605,0x95865926d5b62},{605,0x9adc5372f2cd3},{605,0xa0785abdc6159},{605,0xa81da5cfed1fe},{605,0xb6c57169b81e7},{605,0xb8947980fad72},{605,0xcc40611987935},{605,0xcdd2a2c0fdbd4},{605,0xd2ae8f607d6fa},{605,0xdfabfed366a54},{605,0xe6c204944b90b},{605,0xe7e372b08aa22},{605,0xf1855ae5cf8d4},{605,0xf8076f1823c69},{605,0xffe659a60178d},
{606,0x3f01299c60d5},{606,0x13d2919006a92},{606,0x1b550a08e4ad4},{606,0x2483a0f12569a},{606,0x29b694bde7680},{606,0x31ec0e2c32854},{606,0x3d6c7318c89b7},{606,0x3d77df7cab6df},{606,0x45eac8347da60},{606,0x4e61f991c4ed0},{606,0x56d92aef0c340},{606,0x5a956e225d672},{606,0x6214e82d0eb17},{606,0x67c78da99ac20},{606,0x6da4892d6ec40},{606,0x7493d664f1354},{606,0x923dc22deadda},{606,0x95865926d5b62},{606,0xa0785abdc6159},{606,0xa81da5cfed1fe},{606,0xb6c57169b81e7},{606,0xcdd2a2c0fdbd4},{606,0xe6c204944b90b},{606,0xf1855ae5cf8d4},{606,0xf28f762fa3360},{606,0xf8076f1823c69},{606,0xfa7208ef04014},{606,0xffe659a60178d},
{607,0x1c3342b56591},{607,0xffe29de1f8cf},{607,0x131fa004d1fc0},{607,0x21842372b0d39},{607,0x2483a0f12569a},{607,0x29b694bde7680},{607,0x31ec0e2c32854},{607,0x3d72294aba04b},{607,0x3d77df7cab6df},{607,0x4b56df2c5d7db},{607,0x4e61f991c4ed0},{607,0x5f9e76f25e8f1},{607,0x6214e82d0eb17},{607,0x67c78da99ac20},{607,0x6da4892d6ec40},{607,0x7493d664f1354},{607,0x7b3fcfb0d9067},{607,0x800b68d812525},{607,0x85e81be6a9140},{607,0x923dc22deadda},{607,0x9477c768a6d81},{607,0x95865926d5b62},{607,0xa0785abdc6159},{607,0xa1333c92f7794},{607,0xa81da5cfed1fe},{607,0xb6c57169b81e7},{607,0xc2669c2ec709d},{607,0xca9c159d12271},{607,0xcdd2a2c0fdbd4},{607,0xdd98afa4f0328},{607,0xe6c204944b90b},{607,0xf28f762fa3360},{607,0xfa7208ef04014},{607,0xfee85ff39e3b4},{607,0xffe659a60178d},
{608,0xde7bbce63650},{608,0xffe29de1f8cf},{608,0x21842372b0d39},{608,0x2483a0f12569a},{608,0x28c3264d6cc6b},{608,0x29b694bde7680},{608,0x31ec0e2c32854},{608,0x37ed400ec173a},{608,0x3d72294aba04b},{608,0x3d7396d7365f0},{608,0x3d750463b2b95},{608,0x4e61f991c4ed0},{608,0x5f9e76f25e8f1},{608,0x6214e82d0eb17},{608,0x67c78da99ac20},{608,0x6da4892d6ec40},{608,0x703ec504833d9},{608,0x7493d664f1354},{608,0x7b3fcfb0d9067},{608,0x810e284b0ace1},{608,0x9041e1caec33f},{608,0x923dc22deadda},{608,0x96587ee5106c4},{608,0xb6c57169b81e7},{608,0xb782efa9fa9b4},{608,0xc2669c2ec709d},{608,0xca2f108754287},{608,0xcbd74e3a6a384},{608,0xcd61568c7a230},{608,0xcdd2a2c0fdbd4},{608,0xdd98afa4f0328},{608,0xe42255d800df4},{608,0xfa7208ef04014},{608,0xffe659a60178d},
{609,0x50556f1e18b4},{609,0xde7bbce63650},{609,0x246e14ecfecf0},{609,0x2483a0f12569a},{609,0x29b694bde7680},{609,0x3d7396d7365f0},{609,0x3dc6227de9148},{609,0x44ec17403790b},{609,0x4e61f991c4ed0},{609,0x529d924068908},{609,0x5f9e76f25e8f1},{609,0x6214e82d0eb17},{609,0x6da4892d6ec40},{609,0x703ec504833d9},{609,0x7493d664f1354},{609,0x9041e1caec33f},{609,0x923dc22deadda},{609,0x9d82efdcf4738},{609,0xb0aed3b09ff73},{609,0xb13ac9aaf4c0e},{609,0xb6c57169b81e7},{609,0xbc0f751c07ac2},{609,0xc2669c2ec709d},{609,0xcd61568c7a230},{609,0xe42255d800df4},{609,0xef4a2f6382704},{609,0xfa7208ef04014},{609,0xfd3fbd3bffd28},{609,0xffe659a60178d},
{610,0xe8e1a341d26f},{610,0xec4be0ad8f89},{610,0x1d665e9876bc2},{610,0x2483a0f12569a},{610,0x27a9366254a0b},{610,0x3ccc96ab69604},{610,0x3d7396d7365f0},{610,0x3dc6227de9148},{610,0x4808948bcf77c},{610,0x4e61f991c4ed0},{610,0x529d924068908},{610,0x55b555d5abec4},{610,0x6da4892d6ec40},{610,0x7493d664f1354},{610,0x799c22d9502fe},{610,0x8593bc85319bc},{610,0x8826a5517f432},{610,0x9d82efdcf4738},{610,0xa7457fe531568},{610,0xa79632ba18ab7},{610,0xac5b161e790a4},{610,0xb5722334b74b4},{610,0xbc0f751c07ac2},{610,0xc2669c2ec709d},{610,0xc2bd0b15998a5},{610,0xcca973f8a4ee6},{610,0xdaa2649e82629},{610,0xe42255d800df4},{610,0xfa7208ef04014},
{611,0x2a7f6dc7161f9},{611,0x3ccc96ab69604},{611,0x3d7396d7365f0},{611,0x3dc6227de9148},{611,0x44df0f47b1a91},{611,0x4d5313661c042},{611,0x4e61f991c4ed0},{611,0x4ee96ca799617},{611,0x529d924068908},{611,0x55b555d5abec4},{611,0x61acef818d582},{611,0x6da4892d6ec40},{611,0x725c8b5e33dac},{611,0x73a056035f79f},{611,0x799c22d9502fe},{611,0x8593bc85319bc},{611,0x8826a5517f432},{611,0x918b56311307a},{611,0x9c8099f7c8c23},{611,0xac5b161e790a4},{611,0xb5722334b74b4},{611,0xbcc13e3fa8d46},{611,0xc2669c2ec709d},{611,0xc83eb5fb3cf4c},{611,0xcca973f8a4ee6},{611,0xd28728251571c},{611,0xd937020fc0ab4},{611,0xe42255d800df4},{611,0xf45f7c998aec5},
{612,0x1f0222281f92},{612,0x88aa25038e34},{612,0x88c0fdcb53d9},{612,0xa735d7cf7985},{612,0xec4be0ad8f89},{612,0x1895e1141dfd3},{612,0x3ccc96ab69604},{612,0x3d7396d7365f0},{612,0x3dc6227de9148},{612,0x434c60cf7503c},{612,0x44df0f47b1a91},{612,0x4d5313661c042},{612,0x4e61f991c4ed0},{612,0x4ff852d3424a5},{612,0x57e8111ab51ce},{612,0x62f663e7b42bd},{612,0x664e50dd09c89},{612,0x67a8bc577e0e1},{612,0x6da4892d6ec40},{612,0x73a056035f79f},{612,0x799c22d9502fe},{612,0x7f97efaf40e5d},{612,0x8826a5517f432},{612,0x889d46c2edced},{612,0x96271d104574d},{612,0x96271d104574e},{612,0x9c8099f7c8c23},{612,0xaf739b1347e60},{612,0xb5722334b74b4},{612,0xbdc1643eb87df},{612,0xbe0e8785f66a3},{612,0xc83eb5fb3cf4c},{612,0xe42255d800df4},{612,0xf14823901e66a},{612,0xf21425c662d48},{612,0xf45f7c998aec5},{612,0xf5b4d3201c80a},
{613,0x88659aac3d45},{613,0x88aa25038e34},{613,0x88d7d693197e},{613,0xec4be0ad8f89},{613,0x1895e1141dfd3},{613,0x1fdb22503586d},{613,0x309d55cc3417a},{613,0x3ccc96ab69604},{613,0x3dc6227de9148},{613,0x4aadd3f8f5bdf},{613,0x4d5313661c042},{613,0x4e61f991c4ed0},{613,0x5275ed8d8f36b},{613,0x5379fbba602d4},{613,0x57e8111ab51ce},{613,0x5bb122ab9ca23},{613,0x62f663e7b42bd},{613,0x6da4892d6ec40},{613,0x70a26f98671f0},{613,0x73a056035f79f},{613,0x769e3c6e57d4f},{613,0x799c22d9502fe},{613,0x8176cb66d409a},{613,0x8285a653532a8},{613,0x889d46c2edced},{613,0x8cd105a1b298a},{613,0x9787230703bd9},{613,0x9c8099f7c8c23},{613,0xad56e6bb4a5a7},{613,0xaf739b1347e60},{613,0xb5722334b74b4},{613,0xbdc1643eb87df},{613,0xbe0e8785f66a3},{613,0xc83eb5fb3cf4c},{613,0xd9d84c92fbb30},{613,0xf5b4d3201c80a},{613,0xf90d0dbd93cf2},
{614,0x869cab10cc61},{614,0x88d7d693197e},{614,0x166e8ab060ea5},{614,0x1f45bafec936b},{614,0x309d55cc3417a},{614,0x3dc6227de9148},{614,0x4086fa9ee1097},{614,0x4aadd3f8f5bdf},{614,0x4cbba294c2db6},{614,0x5bb122ab9ca23},{614,0x6aa6a2c276691},{614,0x70a26f98671f0},{614,0x73a056035f79f},{614,0x769e3c6e57d4f},{614,0x799c22d9502fe},{614,0x8176cb66d409a},{614,0x8285a653532a8},{614,0x8891a2f029f6c},{614,0x889d46c2edced},{614,0x8cd2732e2ef2f},{614,0x9787230703bd9},{614,0x9c8099f7c8c23},{614,0xa20b6658f0b6d},{614,0xa5622e27480fa},{614,0xad56e6bb4a5a7},{614,0xaf739b1347e60},{614,0xbb1c24d19237c},{614,0xbdc1643eb87df},{614,0xc227158ba2507},{614,0xc83eb5fb3cf4c},{614,0xd35d23626ad8f},{614,0xeb1b3dcf31d9e},{614,0xf5b4d3201c80a},{614,0xf87a3950b07af},{614,0xfbb0e45456d21},
{615,0x7daffd0797ed},{615,0x88d7d693197e},{615,0x93ffb01e9b0f},{615,0x166e8ab060ea5},{615,0x1777ba1d45b23},{615,0x1913ca1d87308},{615,0x309d55cc3417a},{615,0x3dc6227de9148},{615,0x4086fa9ee1097},{615,0x4aac666c7963a},{615,0x4aadd3f8f5bdf},{615,0x6a17f7778cb42},{615,0x6aa6a2c276691},{615,0x73a056035f79f},{615,0x799c22d9502fe},{615,0x8176cb66d409a},{615,0x8891a2f029f6c},{615,0x8ccb4f6fc12f6},{615,0x8cd2732e2ef2f},{615,0x9875333d0df7d},{615,0xa5622e27480fa},{615,0xa71368f0f3046},{615,0xade1e7afd2d8d},{615,0xbb1c24d19237c},{615,0xbdc1643eb87df},{615,0xca7d69a43c9e9},{615,0xcfc8f1e97941b},{615,0xd0db31aa6aa36},{615,0xd35d23626ad8f},{615,0xd9acf9e537675},{615,0xeb1b3dcf31d9e},{615,0xf5b4d3201c80a},{615,0xf87a3950b07af},{615,0xf88d64cc35f04},{615,0xfbb0e45456d21},{615,0xfc8981b92c4c7},
{616,0x7daffd0797ed},{616,0x88d7d693197e},{616,0xb5773cc11fc2},{616,0xc7910da54fd8},{616,0xf1451ea55dd9},{616,0x1777ba1d45b23},{616,0x1913ca1d87308},{616,0x299cf1ead57dc},{616,0x309d55cc3417a},{616,0x3dc6227de9148},{616,0x4086fa9ee1097},{616,0x4aac666c7963a},{616,0x4aadd3f8f5bdf},{616,0x4e3ada9563d2d},{616,0x5275ed8d8f36b},{616,0x6a17f7778cb42},{616,0x6aa6a2c276691},{616,0x6bd85f5e938e0},{616,0x7149307be8e02},{616,0x75f9823b446b1},{616,0x799c22d9502fe},{616,0x7c47ddd4644b6},{616,0x8176cb66d409a},{616,0x8891a2f029f6c},{616,0x8ca79cb79c5d9},{616,0x8ccb4f6fc12f6},{616,0xa5622e27480fa},{616,0xa71368f0f3046},{616,0xade1e7afd2d8d},{616,0xcccb0b7e80e6c},{616,0xceea387308fb2},{616,0xd0db31aa6aa36},{616,0xd35d23626ad8f},{616,0xda864850292df},{616,0xf88d64cc35f04},{616,0xfbb0e45456d21},{616,0xfc8981b92c4c7},
{617,0x7daffd0797ed},{617,0x88d7d693197e},{617,0xb5773cc11fc2},{617,0xf1451ea55dd9},{617,0x1777ba1d45b23},{617,0x1913ca1d87308},{617,0x1d9fc3b4bd165},{617,0x266d3a341f791},{617,0x299cf1ead57dc},{617,0x3dc6227de9148},{617,0x4086fa9ee1097},{617,0x46f7ee2094839},{617,0x4889ee7b4af11},{617,0x4aac666c7963a},{617,0x4aadd3f8f5bdf},{617,0x4e3ada9563d2d},{617,0x5275ed8d8f36b},{617,0x6a17f7778cb42},{617,0x6bbbdaee1d498},{617,0x7149307be8e02},{617,0x75f9823b446b1},{617,0x8176cb66d409a},{617,0x8891a2f029f6c},{617,0x8ca79cb79c5d9},{617,0x9fea8b39f3923},{617,0xa5622e27480fa},{617,0xa71368f0f3046},{617,0xade1e7afd2d8d},{617,0xb37f01ce02b06},{617,0xc4f29d4314a9f},{617,0xcccb0b7e80e6c},{617,0xcf0deb2b2dccf},{617,0xda864850292df},{617,0xe4b44b3b5049d},{617,0xeab60bac34747},{617,0xf88d64cc35f04},{617,0xfbb0e45456d21},{617,0xfc8981b92c4c7},{617,0xfddd3fdc86259},
{618,0x7daffd0797ed},{618,0x88d7d693197e},{618,0xb5773cc11fc2},{618,0xf1451ea55dd9},{618,0x12ffd103045c7},{618,0x1777ba1d45b23},{618,0x1913ca1d87308},{618,0x191537aa038ad},{618,0x1d9fc3b4bd165},{618,0x1f6c11f5d4215},{618,0x266d3a341f791},{618,0x299cf1ead57dc},{618,0x2ff9864a5a956},{618,0x3a24ac2ba770b},{618,0x3fa23f8a0153d},{618,0x4286ea12cd245},{618,0x4671b66a5bccf},{618,0x46f7ee2094839},{618,0x4a414e440aee3},{618,0x4aac666c7963a},{618,0x4e3ada9563d2d},{618,0x577f6e9224b7e},{618,0x5a4acffb41736},{618,0x5df655f6ce71c},{618,0x6a17f7778cb42},{618,0x7149307be8e02},{618,0x8176cb66d409a},{618,0x8891a2f029f6c},{618,0x8aaa7cfce5ebe},{618,0x8ca79cb79c5d9},{618,0xa71368f0f3046},{618,0xaddac3f165154},{618,0xade1e7afd2d8d},{618,0xb20431a3266c2},{618,0xb37f01ce02b06},{618,0xb9a3d74e2f359},{618,0xbbbcb15aeb2ac},{618,0xc293643e0d0da},{618,0xc4f29d4314a9f},{618,0xcf0deb2b2dccf},{618,0xe4b44b3b5049d},{618,0xe7c08571e88ce},{618,0xeab60bac34747},{618,0xf88d64cc35f04},{618,0xfbb0e45456d21},{618,0xfc8981b92c4c7},{618,0xfddd3fdc86259},
{619,0x88d7d693197e},{619,0xb5773cc11fc2},{619,0xf1451ea55dd9},{619,0x12ffd103045c7},{619,0x14f1802a339d3},{619,0x1d9fc3b4bd165},{619,0x1f6c11f5d4215},{619,0x299cf1ead57dc},{619,0x2ff9864a5a956},{619,0x32989cd976268},{619,0x3a24ac2ba770b},{619,0x46f7ee2094839},{619,0x4a414e440aee3},{619,0x4e3ada9563d2d},{619,0x4ed01dec49514},{619,0x5b3420ad4b569},{619,0x6b74757dd3a5e},{619,0x7149307be8e02},{619,0x87585aabad974},{619,0x8ca79cb79c5d9},{619,0x9e15e0a196d02},{619,0xa2f18d797c3c5},{619,0xa71368f0f3046},{619,0xa96c1a63bbb1d},{619,0xacc731441163e},{619,0xaddac3f165154},{619,0xade1e7afd2d8d},{619,0xb7437383bd2db},{619,0xc88b39c542bff},{619,0xcf0deb2b2dccf},{619,0xd0fcbf97f8d11},{619,0xddd965a216a2c},{619,0xe4b44b3b5049d},{619,0xe7c08571e88ce},{619,0xeab60bac34747},{619,0xedf0e6adc9cd7},{619,0xf0411264f684a},{619,0xf88d64cc35f04},{619,0xfbb0e45456d21},{619,0xfc8981b92c4c7},
{620,0x237abe0380be},{620,0x88d7d693197e},{620,0xb298592c734f},{620,0xba4b529d6a85},{620,0x1d9fc3b4bd165},{620,0x1f6c11f5d4215},{620,0x1ffee72f10903},{620,0x22dd5825a7130},{620,0x28cd9dfe9180f},{620,0x299cf1ead57dc},{620,0x2ff9864a5a956},{620,0x32989cd976268},{620,0x3a24ac2ba770b},{620,0x4348664cd9f39},{620,0x46f7ee2094839},{620,0x4e3ada9563d2d},{620,0x51111b8d15cf1},{620,0x581ce8eca6462},{620,0x5b3420ad4b569},{620,0x73157ebcffeb2},{620,0x82234feb1b0de},{620,0x8ca79cb79c5d9},{620,0x95d61cadf266b},{620,0x9735e1ce504dd},{620,0x9e15e0a196d02},{620,0xa71368f0f3046},{620,0xa96c1a63bbb1d},{620,0xaddac3f165154},{620,0xb3358449204cc},{620,0xbd4533f4a1584},{620,0xc28d597074b96},{620,0xc40c762289247},{620,0xcf0deb2b2dccf},{620,0xd0fcbf97f8d11},{620,0xd31513b146ac5},{620,0xdbf5d60f1164f},{620,0xddd965a216a2c},{620,0xe4b44b3b5049d},{620,0xeab60bac34747},{620,0xf792b1b652462},{620,0xf88d64cc35f04},{620,0xfc8981b92c4c7},
{621,0x88d7d693197e},{621,0xb298592c734f},{621,0xba4b529d6a85},{621,0xf182769708ea},{621,0x1f6c11f5d4215},{621,0x1ffee72f10903},{621,0x22dd5825a7130},{621,0x28cd9dfe9180f},{621,0x2ff9864a5a956},{621,0x4348664cd9f39},{621,0x46f7ee2094839},{621,0x51111b8d15cf1},{621,0x581ce8eca6462},{621,0x5b3420ad4b569},{621,0x691cdc3126996},{621,0x6e67056743752},{621,0x71bc440c2ea2e},{621,0x73157ebcffeb2},{621,0x77eee8670bbf6},{621,0x82234feb1b0de},{621,0x8ca79cb79c5d9},{621,0x95d61cadf266b},{621,0x9e15e0a196d02},{621,0xa17de4eed0d38},{621,0xa4951caf75e3f},{621,0xa71368f0f3046},{621,0xaddac3f165154},{621,0xbd4533f4a1584},{621,0xc40c762289247},{621,0xc88774f59b77c},{621,0xc9736311538ff},{621,0xcf0deb2b2dccf},{621,0xd188c10ab5f6f},{621,0xd76b129d07b9e},{621,0xddd965a216a2c},{621,0xe447b8a7258b9},{621,0xe4b44b3b5049d},{621,0xeab60bac34747},{621,0xf10d50724581c},{621,0xf4248832ea923},{621,0xf999a953a0b69},{621,0xfab66e57bffc9},
{622,0x86c219697e2c},{622,0x8a5fee546f4c},{622,0xba4b529d6a85},{622,0x1f88d6d9e5920},{622,0x1fdf258619e41},{622,0x221e875776b1d},{622,0x22dd5825a7130},{622,0x28cd9dfe9180f},{622,0x3bfc18c728b41},{622,0x451b79ae46437},{622,0x4ed741aab714d},{622,0x581ce8eca6462},{622,0x64f8608b4d0bb},{622,0x66630c3990fa1},{622,0x6cd15f3e9fe2e},{622,0x6e96bb1a464fa},{622,0x71bc440c2ea2e},{622,0x77eee8670bbf6},{622,0x8ca23261e3d42},{622,0x8ca79cb79c5d9},{622,0x95d61cadf266b},{622,0x9e15e0a196d02},{622,0x9eff6a524cf81},{622,0xa4951caf75e3f},{622,0xaddac3f165154},{622,0xb054a26fd1eee},{622,0xb0d5207eae44d},{622,0xbd4533f4a1584},{622,0xc3d2ec5a66431},{622,0xc40c762289247},{622,0xd0fcbf97f8d11},{622,0xddd965a216a2c},{622,0xe447b8a7258b9},{622,0xe4b44b3b5049d},{622,0xf10d50724581c},{622,0xf1245eb1435d4},{622,0xfb9ff80876248},
{623,0x8a5fee546f4c},{623,0xba4b529d6a85},{623,0xebbecea7bb8c},{623,0x1f88d6d9e5920},{623,0x1fdf258619e41},{623,0x221e875776b1d},{623,0x22dd5825a7130},{623,0x27c12e922013b},{623,0x2aa7df854e25b},{623,0x3036a4198413f},{623,0x3bfc18c728b41},{623,0x4ca9c0255556b},{623,0x581ce8eca6462},{623,0x66630c3990fa1},{623,0x6cd15f3e9fe2e},{623,0x6e96bb1a464fa},{623,0x71f5cdd451844},{623,0x8ca79cb79c5d9},{623,0x9e15e0a196d02},{623,0x9eff6a524cf81},{623,0xa4951caf75e3f},{623,0xbd4533f4a1584},{623,0xc3d2ec5a66431},{623,0xc40c762289247},{623,0xc64bd7f3e5f23},{623,0xd0fcbf97f8d11},{623,0xe29223b2d5310},{623,0xe447b8a7258b9},{623,0xe4b44b3b5049d},{623,0xedf618b1a0715},{623,0xf10d50724581c},{623,0xf1245eb1435d4},{623,0xf7104794e75cd},{623,0xfb9ff80876248},
{624,0xba4b529d6a85},{624,0xebbecea7bb8c},{624,0x100172adb42ff},{624,0x1f88d6d9e5920},{624,0x22dd5825a7130},{624,0x2979a5c96adf1},{624,0x2aa7df854e25b},{624,0x3bfc18c728b41},{624,0x4bbc9f61f7045},{624,0x52e1c9e04ee06},{624,0x581ce8eca6462},{624,0x6cd15f3e9fe2e},{624,0x82b7bdec3e220},{624,0x863abce6b82ec},{624,0x8777cc1639d8a},{624,0x8811a950f036f},{624,0x8ef2966af270e},{624,0x9986302e08087},{624,0xa4951caf75e3f},{624,0xad209d7134fb5},{624,0xaefadef7f1a01},{624,0xc332f8ca7cad0},{624,0xccdaec55067a5},{624,0xe4b44b3b5049d},{624,0xececa2f38acb8},{624,0xedf618b1a0715},{624,0xf10d50724581c},{624,0xf4d8e1bebca6c},{624,0xf7104794e75cd},{624,0xfb9ff80876248},{624,0xfeee257ebf815},
{625,0x9931fa8a5472},{625,0xba4b529d6a85},{625,0x1d54a919812ad},{625,0x1db014d625a47},{625,0x1f4f4d11c2b0a},{625,0x1f88d6d9e5920},{625,0x27bcfbe2deb43},{625,0x2aa7df854e25b},{625,0x2b711b9ac70a8},{625,0x48a28d730a1a7},{625,0x4bbc9f61f7045},{625,0x52ca8b08f29a8},{625,0x52e1c9e04ee06},{625,0x581ce8eca6462},{625,0x5a36274e36b4b},{625,0x6cd15f3e9fe2e},{625,0x6eaba0c55c87a},{625,0x7165f55ffa50d},{625,0x74352fa5ae520},{625,0x82b7bdec3e220},{625,0x863abce6b82ec},{625,0x8777cc1639d8a},{625,0x8811a950f036f},{625,0x8de61f1b48c18},{625,0x8ef2966af270e},{625,0x938889d19e978},{625,0x9ab935c141baa},{625,0xa4951caf75e3f},{625,0xad209d7134fb5},{625,0xc0ad63687defd},{625,0xc332f8ca7cad0},{625,0xc37c9dae31f10},{625,0xccdaec55067a5},{625,0xde8201ee671f2},{625,0xe4b44b3b5049d},{625,0xececa2f38acb8},{625,0xf10d50724581c},{625,0xfb9ff80876248},{625,0xfeee257ebf815},
{626,0xba4b529d6a85},{626,0x10af82a34ca1d},{626,0x1f4f4d11c2b0a},{626,0x1f88d6d9e5920},{626,0x2aa7df854e25b},{626,0x2b950048ac781},{626,0x3d18313427af5},{626,0x48a28d730a1a7},{626,0x4acf7e9e98b1f},{626,0x4bbc9f61f7045},{626,0x52ca8b08f29a8},{626,0x52e1c9e04ee06},{626,0x581ce8eca6462},{626,0x6ac1247a985e4},{626,0x7165f55ffa50d},{626,0x74352fa5ae520},{626,0x863abce6b82ec},{626,0x8de61f1b48c18},{626,0x938889d19e978},{626,0x94e5936e98933},{626,0x9ab935c141baa},{626,0xa4951caf75e3f},{626,0xb663e512e4331},{626,0xb993afed217d2},{626,0xc0ad63687defd},{626,0xc37c9dae31f10},{626,0xd0862f3649a7e},{626,0xd0fcbf97f8d11},{626,0xde8201ee671f2},{626,0xe4b44b3b5049d},{626,0xeb959a1d0d6f0},{626,0xefcabefa5cc92},{626,0xf10d50724581c},{626,0xf19aef12f2867},
{627,0xba4b529d6a85},{627,0x16cec5f4687f4},{627,0x179b7525c36b8},{627,0x1f88d6d9e5920},{627,0x3935505d1a393},{627,0x3d18313427af5},{627,0x46f3041604802},{627,0x48a28d730a1a7},{627,0x4bbc9f61f7045},{627,0x52ca8b08f29a8},{627,0x52e1c9e04ee06},{627,0x581ce8eca6462},{627,0x5ec5d7c1c57c6},{627,0x64c37e1e2eed5},{627,0x6a09fcf484ebc},{627,0x6ac1247a985e4},{627,0x6c5acedcf0b9b},{627,0x6c8e436383879},{627,0x7467155d9f7f4},{627,0x863abce6b82ec},{627,0x884af03e7caad},{627,0x8de61f1b48c18},{627,0x8e21674c20561},{627,0x938889d19e978},{627,0xa4951caf75e3f},{627,0xaf716f59a0c94},{627,0xb993afed217d2},{627,0xc24d95850e41b},{627,0xca9b8a412f6d4},{627,0xd0862f3649a7e},{627,0xd0fcbf97f8d11},{627,0xde8201ee671f2},{627,0xe4b44b3b5049d},{627,0xedef8ef827c1b},{627,0xf10d50724581c},{627,0xf19aef12f2867},
{628,0xba4b529d6a85},{628,0x179b7525c36b8},{628,0x19c9cb625344e},{628,0x19ffdb7e8dec2},{628,0x29442e6040aa2},{628,0x2a6c975476912},{628,0x34d847ea5bafd},{628,0x3935505d1a393},{628,0x4bbc9f61f7045},{628,0x4bf7e792ce98e},{628,0x52ca8b08f29a8},{628,0x52e1c9e04ee06},{628,0x581ce8eca6462},{628,0x5d9419ddd9691},{628,0x5ec5d7c1c57c6},{628,0x5f2f9c9c01b92},{628,0x64c37e1e2eed5},{628,0x677d079ee9dcf},{628,0x6a09fcf484ebc},{628,0x6c8e436383879},{628,0x7b0ebb8a15455},{628,0x888081db89749},{628,0x8de61f1b48c18},{628,0x8e21674c20561},{628,0x8eb30aa51103e},{628,0x938889d19e978},{628,0xa1775b355823e},{628,0xa4951caf75e3f},{628,0xad8e655f547ac},{628,0xaf716f59a0c94},{628,0xb993afed217d2},{628,0xbfde2b2f896e4},{628,0xd74e793052d8c},{628,0xde8201ee671f2},{628,0xe2e83a39c8e53},{628,0xedef8ef827c1b},{628,0xf10d50724581c},{628,0xf15fa6e21af1e},
{629,0x8e147161e895},{629,0xba4b529d6a85},{629,0x15665f50b23cc},{629,0x16e20b6cd4312},{629,0x1a5ad6313a76b},{629,0x29442e6040aa2},{629,0x3051ee4e2f973},{629,0x34d847ea5bafd},{629,0x35deb75c79fdb},{629,0x3935505d1a393},{629,0x40304bc080d17},{629,0x52ca8b08f29a8},{629,0x52e1c9e04ee06},{629,0x581ce8eca6462},{629,0x5c13765f1e7a5},{629,0x5d9419ddd9691},{629,0x64c37e1e2eed5},{629,0x70becad701cf3},{629,0x888081db89749},{629,0x938889d19e978},{629,0xa08b779879892},{629,0xa4951caf75e3f},{629,0xaacfcb88c92d6},{629,0xb099d84dd6b04},{629,0xb993afed217d2},{629,0xbb2084780e8e1},{629,0xcf045f58ebb9a},{629,0xd0ce130ab6fc9},{629,0xd0fcbf97f8d11},{629,0xdcaeee8cfacf4},{629,0xe12e333d09e17},{629,0xe2e83a39c8e53},{629,0xedef8ef827c1b},{629,0xf10d50724581c},{629,0xf15fa6e21af1e},{629,0xf6cc151aa610c},
{630,0x5f01458a534},{630,0x8e147161e895},{630,0xba4b529d6a85},{630,0x15665f50b23cc},{630,0x16e20b6cd4312},{630,0x35deb75c79fdb},{630,0x3935505d1a393},{630,0x40ebeee81229d},{630,0x52e1c9e04ee06},{630,0x581ce8eca6462},{630,0x64c37e1e2eed5},{630,0x67b1b04f3b067},{630,0x6b9118f499dfd},{630,0x70becad701cf3},{630,0x8f20bea32bac7},{630,0x938889d19e978},{630,0x9500554ce123a},{630,0x9a0a00b50c105},{630,0xa08b779879892},{630,0xaacfcb88c92d6},{630,0xaca74a7320389},{630,0xb5b860a7a584d},{630,0xb993afed217d2},{630,0xbe8826cda9b71},{630,0xcf045f58ebb9a},{630,0xd0ce130ab6fc9},{630,0xd0fcbf97f8d11},{630,0xd6c6cc5d0653e},{630,0xdcaeee8cfacf4},{630,0xe12e333d09e17},{630,0xe2e83a39c8e53},{630,0xedef8ef827c1b},{630,0xf15fa6e21af1e},
{631,0x5f01458a534},{631,0x4cea72108cf2},{631,0x8e147161e895},{631,0x15665f50b23cc},{631,0x26eac90c11b9e},{631,0x2a166b59f4171},{631,0x2bcc9914fdb4d},{631,0x2ec30e7ac84ef},{631,0x3935505d1a393},{631,0x40ebeee81229d},{631,0x47a1706c7cdb1},{631,0x4c95d3c9a314d},{631,0x52e1c9e04ee06},{631,0x607fd25e31672},{631,0x64d6498483250},{631,0x67b1b04f3b067},{631,0x7507bd2994356},{631,0x795e344fe5f34},{631,0x7ed8cab48c06e},{631,0x813ef0a2c7899},{631,0x83566533987d2},{631,0x8e0e2055c1901},{631,0x8f20bea32bac7},{631,0x923c96419a7f5},{631,0x938889d19e978},{631,0xaacfcb88c92d6},{631,0xb993afed217d2},{631,0xbe8826cda9b71},{631,0xbebaaebeeb9a9},{631,0xc0cb4bf2e7c0a},{631,0xcf045f58ebb9a},{631,0xd0ce130ab6fc9},{631,0xd29b9a4228130},{631,0xd6c6cc5d0653e},{631,0xdcaeee8cfacf4},{631,0xe12e333d09e17},{631,0xe2e83a39c8e53},{631,0xedef8ef827c1b},{631,0xf15fa6e21af1e},
{632,0x5f01458a534},{632,0x23998cd10537},{632,0x4cea72108cf2},{632,0x8e147161e895},{632,0x9538033fba7a},{632,0xdd85946ee802},{632,0x134122b5de040},{632,0x28f56fb89f932},{632,0x2a166b59f4171},{632,0x2bcc9914fdb4d},{632,0x2da3628ca6504},{632,0x2ec30e7ac84ef},{632,0x5fb95678ada1d},{632,0x64d6498483250},{632,0x67b1b04f3b067},{632,0x730137607b3b7},{632,0x734fea3f57929},{632,0x7ed8cab48c06e},{632,0x83566533987d2},{632,0x938889d19e978},{632,0x94d44b1eaa9a2},{632,0xa54cf54481f5d},{632,0xa64b2391b5a39},{632,0xaacfcb88c92d6},{632,0xab1af8334f0b7},{632,0xb3cdf7c7849b5},{632,0xb5b0fc9905e99},{632,0xb5cd8bbdd8770},{632,0xb993afed217d2},{632,0xba35d5abf8c21},{632,0xbe8826cda9b71},{632,0xbebaaebeeb9a9},{632,0xc0cb4bf2e7c0a},{632,0xc7458e0e2e06e},{632,0xcf045f58ebb9a},{632,0xd0ce130ab6fc9},{632,0xd63bdae2e8bc6},{632,0xd6c6cc5d0653e},{632,0xdcaeee8cfacf4},{632,0xe12e333d09e17},{632,0xecc24cc724e72},{632,0xedffa483e284a},
{633,0x5f01458a534},{633,0x8e147161e895},{633,0x9538033fba7a},{633,0xb48c8df509f6},{633,0xe602730a62e2},{633,0x134122b5de040},{633,0x2a166b59f4171},{633,0x2da3628ca6504},{633,0x2ec30e7ac84ef},{633,0x48e40dd4978ec},{633,0x51e565d22e423},{633,0x5a43bc127b084},{633,0x5fb95678ada1d},{633,0x64d6498483250},{633,0x67b1b04f3b067},{633,0x68dd4a4a6d73a},{633,0x730137607b3b7},{633,0x7a201401a1628},{633,0x83566533987d2},{633,0x87f8a0dbe9183},{633,0x9fd20b53b9e3c},{633,0xa39d984d3a879},{633,0xa64b2391b5a39},{633,0xaacfcb88c92d6},{633,0xab1af8334f0b7},{633,0xb3cdf7c7849b5},{633,0xb5cd8bbdd8770},{633,0xb993afed217d2},{633,0xba35d5abf8c21},{633,0xbb4c6bd8601bd},{633,0xbe8826cda9b71},{633,0xc0cb4bf2e7c0a},{633,0xc3e4cb66dc920},{633,0xc7458e0e2e06e},{633,0xcbc90c27f70a4},{633,0xcf045f58ebb9a},{633,0xd0ce130ab6fc9},{633,0xd63bdae2e8bc6},{633,0xd6c6cc5d0653e},{633,0xe1c48c92159d8},{633,0xedffa483e284a},{633,0xf8a9bdfe4cdd7},
{634,0x228454a37ea5},{634,0x24eb59839bff},{634,0x9538033fba7a},{634,0xba0b723625bc},{634,0x125d3259e158a},{634,0x2a166b59f4171},{634,0x2a9bc22527cdd},{634,0x2c5d34375c0fe},{634,0x2da3628ca6504},{634,0x2ec30e7ac84ef},{634,0x31e8894121038},{634,0x48e40dd4978ec},{634,0x5a43bc127b084},{634,0x5ff2df047d53b},{634,0x64d6498483250},{634,0x67b1b04f3b067},{634,0x68dd4a4a6d73a},{634,0x69a164a1ea732},{634,0x730137607b3b7},{634,0x83566533987d2},{634,0x9fd20b53b9e3c},{634,0xa03be2c2b89eb},{634,0xa39d984d3a879},{634,0xaacfcb88c92d6},{634,0xab1af8334f0b7},{634,0xb04eaba350d23},{634,0xb3cdf7c7849b5},{634,0xb5cd8bbdd8770},{634,0xba35d5abf8c21},{634,0xbb4c6bd8601bd},{634,0xbe0bdbe5a3ee4},{634,0xc0c4172ac08e1},{634,0xc0cb4bf2e7c0a},{634,0xc64a2c0d6f657},{634,0xcbc90c27f70a4},{634,0xd0f413ab9b265},{634,0xd63bdae2e8bc6},{634,0xd6c6cc5d0653e},{634,0xd7b5c163df701},{634,0xedffa483e284a},{634,0xf8a9bdfe4cdd7},
{635,0x228454a37ea5},{635,0x24eb59839bff},{635,0x57bc45239669},{635,0x71113aa823b6},{635,0x9538033fba7a},{635,0xba0b723625bc},{635,0x125d3259e158a},{635,0x1875a9e2801ca},{635,0x28464b0993c26},{635,0x2a166b59f4171},{635,0x2a9bc22527cdd},{635,0x2c5d34375c0fe},{635,0x2da3628ca6504},{635,0x383b8053f2c06},{635,0x48e40dd4978ec},{635,0x4ab42e24f7e37},{635,0x5ff2df047d53b},{635,0x64d6498483250},{635,0x67b1b04f3b067},{635,0x68dd4a4a6d73a},{635,0x69a164a1ea732},{635,0x6a3beaa288810},{635,0x730137607b3b7},{635,0x8457aacf13abb},{635,0x917112b51389a},{635,0x9fd20b53b9e3c},{635,0xa03be2c2b89eb},{635,0xa343832a37212},{635,0xa39d984d3a879},{635,0xb5cd8bbdd8770},{635,0xb9149f673c0bf},{635,0xb9a53a899a670},{635,0xba35d5abf8c21},{635,0xbb4c6bd8601bd},{635,0xbd970870c0e77},{635,0xc0c4172ac08e1},{635,0xc0cb4bf2e7c0a},{635,0xc64a2c0d6f657},{635,0xd63bdae2e8bc6},{635,0xd6c6cc5d0653e},{635,0xd7b5c163df701},{635,0xde139378ff899},{635,0xe7a5870fe3376},{635,0xe85d1e06ac0b4},{635,0xee0325fc27a26},{635,0xf2412ce1ac8bf},
{636,0x24eb59839bff},{636,0x71113aa823b6},{636,0x8c2e5119d4c9},{636,0x9538033fba7a},{636,0xcb7230231ca0},{636,0x125d3259e158a},{636,0x19b7bff34aa4e},{636,0x2a9bc22527cdd},{636,0x2c5d34375c0fe},{636,0x2da3628ca6504},{636,0x3120ca4e5b89d},{636,0x5ff2df047d53b},{636,0x67b1b04f3b067},{636,0x6a3beaa288810},{636,0x730137607b3b7},{636,0x7f4112f63e3f6},{636,0x810a6efcfb581},{636,0x8457aacf13abb},{636,0x8f8ff45bc0259},{636,0x9fd20b53b9e3c},{636,0xa03be2c2b89eb},{636,0xa39d984d3a879},{636,0xb88cfbcb1c497},{636,0xb9a53a899a670},{636,0xba35d5abf8c21},{636,0xbb4c6bd8601bd},{636,0xbe0bdbe5a3ee4},{636,0xc0c4172ac08e1},{636,0xc0cb4bf2e7c0a},{636,0xd63bdae2e8bc6},{636,0xd6c6cc5d0653e},{636,0xdc1a31ba1619d},{636,0xde139378ff899},{636,0xe42bfe807e9c7},{636,0xe85d1e06ac0b4},{636,0xf5097d5d8c341},
{637,0x24eb59839bff},{637,0x9e41b565a02b},{637,0x125d3259e158a},{637,0x16274953b1878},{637,0x19b7bff34aa4e},{637,0x1e7d40872dc41},{637,0x2a9bc22527cdd},{637,0x2c5d34375c0fe},{637,0x2da3628ca6504},{637,0x3120ca4e5b89d},{637,0x41ac924a9a8c0},{637,0x4bc974def7204},{637,0x4e88e4ec3af2b},{637,0x5cd32fdada1e5},{637,0x617c5d5ecb075},{637,0x67b1b04f3b067},{637,0x6b20fee05ef55},{637,0x810a6efcfb581},{637,0x8457aacf13abb},{637,0xa03be2c2b89eb},{637,0xaabe76ec937de},{637,0xae5d96d6639d4},{637,0xb0e2cd88c24cf},{637,0xb9a53a899a670},{637,0xba35d5abf8c21},{637,0xbb4c6bd8601bd},{637,0xbbd2fea0740f6},{637,0xbe0bdbe5a3ee4},{637,0xbfdbe503a850b},{637,0xd63bdae2e8bc6},{637,0xde139378ff899},{637,0xe11b33e07e0c0},{637,0xe85d1e06ac0b4},{637,0xf5097d5d8c341},{637,0xf786d0b1e1788},
{638,0x24eb59839bff},{638,0x43e0bfeaa741},{638,0x9e41b565a02b},{638,0x125d3259e158a},{638,0x16c7696f8674e},{638,0x19b7bff34aa4e},{638,0x1e7d40872dc41},{638,0x2936bf58f9281},{638,0x2a9bc22527cdd},{638,0x2c5d34375c0fe},{638,0x2db2291ef2987},{638,0x2e9b7f104f21c},{638,0x351fa1383429f},{638,0x4e88e4ec3af2b},{638,0x56c735140669e},{638,0x5779b67a1dbcc},{638,0x5f5c91a4f3316},{638,0x620cf88129626},{638,0x6b20fee05ef55},{638,0x7631921b4d21f},{638,0x8457aacf13abb},{638,0x864a6068ef707},{638,0x91f202749ec43},{638,0xa03be2c2b89eb},{638,0xb1359f24099aa},{638,0xb1bcbea8716c2},{638,0xb9a53a899a670},{638,0xba35d5abf8c21},{638,0xbb4c6bd8601bd},{638,0xbe0bdbe5a3ee4},{638,0xbfdbe503a850b},{638,0xd63bdae2e8bc6},{638,0xde139378ff899},{638,0xe11b33e07e0c0},{638,0xe85d1e06ac0b4},{638,0xebfa8cde135ba},{638,0xf5cd5762586c0},{638,0xf8587e7083e2f},
{639,0x43e0bfeaa741},{639,0x97818337805b},{639,0x16c7696f8674e},{639,0x19b7bff34aa4e},{639,0x1ce4cead4a4b8},{639,0x2e9b7f104f21c},{639,0x2f85ab94248b2},{639,0x490a04d1b34de},{639,0x4b4dff4b7f98a},{639,0x56c735140669e},{639,0x5779b67a1dbcc},{639,0x5f5c91a4f3316},{639,0x620cf88129626},{639,0x6909eaa3f3486},{639,0x698260fb13a02},{639,0x7631921b4d21f},{639,0x8457aacf13abb},{639,0x8909d0763342e},{639,0x91f202749ec43},{639,0x9504d828a34ba},{639,0xa03be2c2b89eb},{639,0xa0cb6620a7c62},{639,0xb1359f24099aa},{639,0xb1bcbea8716c2},{639,0xbb4c6bd8601bd},{639,0xbcdd78a275b8c},{639,0xcfd3989ce5d5b},{639,0xd63bdae2e8bc6},{639,0xd88ce19d5c43f},{639,0xe11b33e07e0c0},{639,0xebfa8cde135ba},{639,0xf8587e7083e2f},
{640,0xc56e37b0615},{640,0x16c7696f8674e},{640,0x23a2b4283e911},{640,0x2407ec4b629fc},{640,0x24a10172532db},{640,0x2e9b7f104f21c},{640,0x4b4dff4b7f98a},{640,0x56c735140669e},{640,0x575e4c0df6f84},{640,0x5bc967c8171d8},{640,0x620cf88129626},{640,0x6909eaa3f3486},{640,0x702c1edc6046f},{640,0x7631921b4d21f},{640,0x82799cea8cffd},{640,0x8457aacf13abb},{640,0x938ae344cb9b5},{640,0x9504d828a34ba},{640,0x99ae3539a7a66},{640,0x9fdf1deefe2e4},{640,0xa03be2c2b89eb},{640,0xa376dc764ef85},{640,0xb1bcbea8716c2},{640,0xbb4c6bd8601bd},{640,0xbcdd78a275b8c},{640,0xd63bdae2e8bc6},{640,0xdb4c51aaa0165},{640,0xdbab8761b3643},{640,0xdfd1d6f839d8c},{640,0xe11b33e07e0c0},{640,0xe68ae05f48b3d},{640,0xe7b3c8174c559},{640,0xf8587e7083e2f},
{641,0x6c776866677a},{641,0x16c7696f8674e},{641,0x2407ec4b629fc},{641,0x24a10172532db},{641,0x28dd7ea5ed7ea},{641,0x2c15ef124e78f},{641,0x2e9b7f104f21c},{641,0x3325a40729120},{641,0x3ff541b2e6135},{641,0x41a4bf5575cea},{641,0x4b4dff4b7f98a},{641,0x5080a87d34800},{641,0x56c735140669e},{641,0x575e4c0df6f84},{641,0x5bc967c8171d8},{641,0x620cf88129626},{641,0x6909eaa3f3486},{641,0x6ec7566907dd3},{641,0x7631921b4d21f},{641,0x8457aacf13abb},{641,0x9b4c860620215},{641,0xa03be2c2b89eb},{641,0xacb19eac701a8},{641,0xb1bcbea8716c2},{641,0xb60be27113efa},{641,0xc41d69887ec68},{641,0xcb4c5ec180191},{641,0xd056b5bacd71a},{641,0xd63bdae2e8bc6},{641,0xdfd1d6f839d8c},{641,0xe11b33e07e0c0},{641,0xedcd5dedc86d6},{641,0xf16a395cde037},{641,0xf8587e7083e2f},{641,0xfb9fb9a11e580},{641,0xffe966b699c8b},
{642,0x6c776866677a},{642,0x83362cb8fba0},{642,0xec76ffaf6764},{642,0x16c7696f8674e},{642,0x24a10172532db},{642,0x2e9b7f104f21c},{642,0x3ff541b2e6135},{642,0x41a4bf5575cea},{642,0x47146bd440767},{642,0x4b4dff4b7f98a},{642,0x4e2106f7575ff},{642,0x5080a87d34800},{642,0x575e4c0df6f84},{642,0x6909eaa3f3486},{642,0x6da68ede5f9e2},{642,0x7109e41883470},{642,0x7631921b4d21f},{642,0x7909dd8d1345a},{642,0x7a425ed462ea3},{642,0x8457aacf13abb},{642,0x915ff99af9ed5},{642,0x9b4c860620215},{642,0xa9269ac3b96ac},{642,0xaed6591123dd3},{642,0xb2f3e2a343e9d},{642,0xb502757a3a8c0},{642,0xbb0d7c68f3755},{642,0xc34c654cf01a7},{642,0xcb4c5ec180191},{642,0xd3c7d68d7a532},{642,0xd63bdae2e8bc6},{642,0xd812e87fd653d},{642,0xdfd1d6f839d8c},{642,0xe11b33e07e0c0},{642,0xe88928745d64b},{642,0xeb4c4493c0139},{642,0xedc98c7783265},{642,0xf16a395cde037},{642,0xf17eaa50a5c8b},{642,0xf8587e7083e2f},{642,0xfb9fb9a11e580},{642,0xffe966b699c8b},
{643,0x6c776866677a},{643,0x10b7aee055e85},{643,0x118f62bbd55f9},{643,0x12c76cb53e759},{643,0x24a10172532db},{643,0x2c5a05a4621d0},{643,0x3155a7cda6ce9},{643,0x3a6594ed321fc},{643,0x3b374f06526dd},{643,0x3ff541b2e6135},{643,0x459e40fe15263},{643,0x47146bd440767},{643,0x4b4dff4b7f98a},{643,0x4e2106f7575ff},{643,0x5080a87d34800},{643,0x5109fe46434c8},{643,0x575e4c0df6f84},{643,0x6241a2af8ca4b},{643,0x6d09e75e3b47b},{643,0x7631921b4d21f},{643,0x7909dd8d1345a},{643,0x7a3a4d079c81b},{643,0x7a425ed462ea3},{643,0x7e59f4f914c0c},{643,0xa9269ac3b96ac},{643,0xaed6591123dd3},{643,0xb023005cd6d2f},{643,0xb1fd8f4968242},{643,0xb94d6ea273669},{643,0xbb0d7c68f3755},{643,0xc2ac959a83fed},{643,0xc2c24a9af5dfa},{643,0xc34c654cf01a7},{643,0xc74c62073819c},{643,0xcb4c5ec180191},{643,0xd812e87fd653d},{643,0xdfd1d6f839d8c},{643,0xe11b33e07e0c0},{643,0xedc98c7783265},{643,0xf8587e7083e2f},{643,0xffe966b699c8b},
{644,0x6c776866677a},{644,0x10c76e581a75f},{644,0x12c76cb53e759},{644,0x1ac76629ce743},{644,0x1c7ef87219133},{644,0x24a10172532db},{644,0x2c5a05a4621d0},{644,0x3a6594ed321fc},{644,0x3e6d5710cb4e8},{644,0x3ff541b2e6135},{644,0x459e40fe15263},{644,0x4e2106f7575ff},{644,0x53c39cf479f84},{644,0x575e4c0df6f84},{644,0x6241a2af8ca4b},{644,0x6509ede9ab491},{644,0x6d09e75e3b47b},{644,0x734ca6bf50283},{644,0x7631921b4d21f},{644,0x7909dd8d1345a},{644,0x7a3a4d079c81b},{644,0x7c153fe9e63bb},{644,0x989f8742204ba},{644,0xa9269ac3b96ac},{644,0xb1fd8f4968242},{644,0xb94d6ea273669},{644,0xbb0d7c68f3755},{644,0xc2ac959a83fed},{644,0xc2c24a9af5dfa},{644,0xc34c654cf01a7},{644,0xc94c60645c197},{644,0xcb45109438196},{644,0xd0d0d556be4dd},{644,0xd812e87fd653d},{644,0xd8d2f6897ba4c},{644,0xdd7b718fc69f0},{644,0xdfd1d6f839d8c},{644,0xf8587e7083e2f},{644,0xffe966b699c8b},
{645,0x6c776866677a},{645,0xf3aae8d00d8b},{645,0x10c76e581a75f},{645,0x12c76cb53e759},{645,0x1f476cb8fe987},{645,0x2c5a05a4621d0},{645,0x3563ae5a96b5c},{645,0x3e6d5710cb4e8},{645,0x459e40fe15263},{645,0x4e2106f7575ff},{645,0x5fec4702d8d3f},{645,0x6241a2af8ca4b},{645,0x67b5368aeab5b},{645,0x6d09e75e3b47b},{645,0x6f09e5bb5f475},{645,0x73a6cb866b964},{645,0x7631921b4d21f},{645,0x7a3a4d079c81b},{645,0x989f8742204ba},{645,0x9b2b23e14bb09},{645,0xbb0d7c68f3755},{645,0xc2ac959a83fed},{645,0xc2c24a9af5dfa},{645,0xc34c654cf01a7},{645,0xc703ad9796fc8},{645,0xc94c60645c197},{645,0xcd4c5d1ea418c},{645,0xd675d707f4333},{645,0xd74c54f058170},{645,0xd812e87fd653d},{645,0xdd7b718fc69f0},{645,0xdfd1d6f839d8c},{645,0xf8587e7083e2f},
{646,0x238aea32fb8a},{646,0x40da13204010},{646,0x6c776866677a},{646,0xef0823c0adb0},{646,0xf3aae8d00d8b},{646,0xf4cf88e48396},{646,0x10c76e581a75f},{646,0x1f476cb8fe987},{646,0x239329190c3f3},{646,0x2c5a05a4621d0},{646,0x3563ae5a96b5c},{646,0x39e882b5b1022},{646,0x3b374f06526dd},{646,0x459e40fe15263},{646,0x4e2106f7575ff},{646,0x598a51336918c},{646,0x6241a2af8ca4b},{646,0x6d134a053aaad},{646,0x6f09e5bb5f475},{646,0x73a6cb866b964},{646,0x7631921b4d21f},{646,0x7a3a4d079c81b},{646,0x989f8742204ba},{646,0x992b258427b0e},{646,0xa54c7dd7d41fa},{646,0xbb0d7c68f3755},{646,0xc2ac959a83fed},{646,0xc2c24a9af5dfa},{646,0xc9245f15e78af},{646,0xd74c54f058170},{646,0xd8d2f6897ba4c},{646,0xdfd1d6f839d8c},{646,0xf76d9ce76c825},
{647,0x6c776866677a},{647,0x10c76e581a75f},{647,0x1f476cb8fe987},{647,0x239329190c3f3},{647,0x2c5a05a4621d0},{647,0x37a6188823dbf},{647,0x39e882b5b1022},{647,0x3ae8ae20e2df8},{647,0x42f22b6be59ae},{647,0x437d8f7fc497c},{647,0x459e40fe15263},{647,0x5097dbf390fd3},{647,0x629e38e71cbb9},{647,0x6f09e5bb5f475},{647,0x70fa0129c14ba},{647,0x73a6cb866b964},{647,0x7631921b4d21f},{647,0x778f67c341091},{647,0x79d0a8ff65bd0},{647,0x841a859fc37c2},{647,0x87615009fe589},{647,0xa32b1d55dbaf3},{647,0xa9458b78ed377},{647,0xad7b5babd04f4},{647,0xae5e78654f891},{647,0xb3eae85177104},{647,0xbb0d7c68f3755},{647,0xbd5300e12f699},{647,0xcd65c21288a7d},{647,0xd74c54f058170},{647,0xd8d2f6897ba4c},{647,0xdfd1d6f839d8c},{647,0xf507ba3fb45c7},{647,0xf76d9ce76c825},
{648,0x3db31f22bf3d},{648,0x4a616046e073},{648,0x1c9aa25c544dd},{648,0x1f476cb8fe987},{648,0x2e29e6ccbdd38},{648,0x37a6188823dbf},{648,0x3ae8ae20e2df8},{648,0x42f22b6be59ae},{648,0x437d8f7fc497c},{648,0x4a70f9fbeef90},{648,0x4eeac3f6b794b},{648,0x58c47e6eea282},{648,0x629e38e71cbb9},{648,0x667fc88409bf6},{648,0x6ce8853966d6e},{648,0x6f09e5bb5f475},{648,0x73a6cb866b964},{648,0x7631921b4d21f},{648,0x79d0a8ff65bd0},{648,0x841a859fc37c2},{648,0x87615009fe589},{648,0xa32b1d55dbaf3},{648,0xad7b5babd04f4},{648,0xae5e78654f891},{648,0xbdc4114397ff3},{648,0xc402fac8d9242},{648,0xd52af46e5fa69},{648,0xd85d0531544f4},{648,0xe2acb101ae383},{648,0xec3f4e9d4c52a},{648,0xec866b79e0cba},{648,0xf507ba3fb45c7},
{649,0x3db31f22bf3d},{649,0x4a616046e073},{649,0x1f476cb8fe987},{649,0x204fba33268f7},{649,0x2783da15ed46f},{649,0x2e29e6ccbdd38},{649,0x37a6188823dbf},{649,0x38c74d9eea6f1},{649,0x42f22b6be59ae},{649,0x58c47e6eea282},{649,0x667fc88409bf6},{649,0x6ce8853966d6e},{649,0x6f09e5bb5f475},{649,0x73a6cb866b964},{649,0x79d0a8ff65bd0},{649,0x831fed0d5d3bb},{649,0x8a0522c7e7095},{649,0x9a7e7df94d37e},{649,0x9da61d8f8f857},{649,0xa842d78ff2f1c},{649,0xaff30d11dbf47},{649,0xbdc4114397ff3},{649,0xc402fac8d9242},{649,0xd52af46e5fa69},{649,0xda4fb08edda3f},{649,0xe1c1e9ebb5f22},{649,0xe2acb101ae383},{649,0xe7e5351d8b95b},{649,0xec866b79e0cba},{649,0xf0484ca3a4b16},{649,0xf966519fae298},
{650,0x4a616046e073},{650,0xa75ccf91ce03},{650,0x151b29d1a6b90},{650,0x15eaa874aa934},{650,0x21606a7422c7b},{650,0x28fe1c74c1a9e},{650,0x3409ab20c48e9},{650,0x363dd5fa4320d},{650,0x37a6188823dbf},{650,0x42f22b6be59ae},{650,0x47accff742eb6},{650,0x5581a20e9f2f8},{650,0x58c47e6eea282},{650,0x6ce8853966d6e},{650,0x6f09e5bb5f475},{650,0x73a6cb866b964},{650,0x79d0a8ff65bd0},{650,0x831fed0d5d3bb},{650,0x89a2d9a91b976},{650,0x8f3919b831427},{650,0x925a0aabcdc68},{650,0x9666fb7f7ba34},{650,0xa842d78ff2f1c},{650,0xaf40bc61132e0},{650,0xaff30d11dbf47},{650,0xbdc4114397ff3},{650,0xc402fac8d9242},{650,0xd52af46e5fa69},{650,0xda4fb08edda3f},{650,0xda5e1b4b4397f},{650,0xe2acb101ae383},{650,0xe5212707b45b2},{650,0xec31126a0feb1},{650,0xec866b79e0cba},{650,0xf0484ca3a4b16},{650,0xf1e548de14671},
{651,0x4a616046e073},{651,0xa75ccf91ce03},{651,0xbf59c978279d},{651,0xee387e96ed66},{651,0x151b29d1a6b90},{651,0x1d0c83f6378a5},{651,0x1e26174648f19},{651,0x2d13dc09869b6},{651,0x3409ab20c48e9},{651,0x3aadaa9b2fe3c},{651,0x42f22b6be59ae},{651,0x44c8b9fd8b14c},{651,0x47316e69a1f40},{651,0x5236ea001af17},{651,0x58c47e6eea282},{651,0x6aa61b0bd9b0b},{651,0x6c74a426fa60c},{651,0x6ce8853966d6e},{651,0x73a6cb866b964},{651,0x89a2d9a91b976},{651,0x8f11858be75b4},{651,0x8f3919b831427},{651,0x925a0aabcdc68},{651,0x9666fb7f7ba34},{651,0xa2a574f46579e},{651,0xa4df9d2d3032f},{651,0xaa15866189d14},{651,0xaff30d11dbf47},{651,0xbdc4114397ff3},{651,0xc402fac8d9242},{651,0xd1729c25a62d3},{651,0xd52af46e5fa69},{651,0xda4fb08edda3f},{651,0xe2acb101ae383},{651,0xe5212707b45b2},{651,0xec866b79e0cba},{651,0xf0484ca3a4b16},{651,0xf1e548de14671},{651,0xf8cfb1e9c2892},
{652,0x4a616046e073},{652,0x5479a2b4ccbb},{652,0xa75ccf91ce03},{652,0xee387e96ed66},{652,0x116616a55b7c6},{652,0x151b29d1a6b90},{652,0x1d0c83f6378a5},{652,0x273a233ed4b18},{652,0x29a52cf83d559},{652,0x33d4032c2c7f4},{652,0x3409ab20c48e9},{652,0x38c74d9eea6f1},{652,0x3aadaa9b2fe3c},{652,0x47316e69a1f40},{652,0x58c47e6eea282},{652,0x5b5b5ad951196},{652,0x5c37c2c1fb558},{652,0x6aa61b0bd9b0b},{652,0x6b3cbc1048fc9},{652,0x6c74a426fa60c},{652,0x6ce8853966d6e},{652,0x7164d09b6898b},{652,0x7322a693300ee},{652,0x73a6cb866b964},{652,0x7db4f9b1a7d10},{652,0x8114fb88fb72f},{652,0x8f11858be75b4},{652,0x925a0aabcdc68},{652,0x9baa2e8ded268},{652,0x9bbcdd86a352b},{652,0xa109bcd3e33ec},{652,0xa2a574f46579e},{652,0xaff30d11dbf47},{652,0xbdc4114397ff3},{652,0xc795f0372322c},{652,0xda4fb08edda3f},{652,0xded11e9abc75f},{652,0xe7abb56749003},{652,0xea066abc6ba94},{652,0xea26215520449},{652,0xec866b79e0cba},{652,0xf0484ca3a4b16},{652,0xf524eea30d0ca},
{653,0x4a616046e073},{653,0x89e9b6167a2c},{653,0x101663d6ef728},{653,0x12a39f03b827f},{653,0x151b29d1a6b90},{653,0x1d0c83f6378a5},{653,0x2358d8773a6ff},{653,0x2ae617e73666c},{653,0x33d4032c2c7f4},{653,0x3409ab20c48e9},{653,0x464c40cd8b53b},{653,0x4fa7e943ed45b},{653,0x53ba9a3eba3fc},{653,0x58c47e6eea282},{653,0x5b5b5ad951196},{653,0x5c37c2c1fb558},{653,0x621384f31765b},{653,0x67ef47243375e},{653,0x6aa61b0bd9b0b},{653,0x6b3cbc1048fc9},{653,0x6c74a426fa60c},{653,0x727f1a4136586},{653,0x7db4f9b1a7d10},{653,0x83c920de69ad8},{653,0x8f11858be75b4},{653,0x902d375306a57},{653,0x925a0aabcdc68},{653,0x9baa2e8ded268},{653,0x9bbcdd86a352b},{653,0xa6f4b688fb9a6},{653,0xb7ea5878e6156},{653,0xbdc4114397ff3},{653,0xd0f97b18e14d4},{653,0xda4fb08edda3f},{653,0xe7abb56749003},{653,0xec0b9013627d3},{653,0xec866b79e0cba},{653,0xf0484ca3a4b16},{653,0xf20cd49b2bfb4},{653,0xf524eea30d0ca},{653,0xf640275f2cb6b},
{654,0x1f098f531f4a},{654,0x4a616046e073},{654,0x89e9b6167a2c},{654,0xbb6899f446e5},{654,0x101663d6ef728},{654,0x1d0c83f6378a5},{654,0x2358d8773a6ff},{654,0x2ae617e73666c},{654,0x33d4032c2c7f4},{654,0x3409ab20c48e9},{654,0x346ae208307c6},{654,0x378cb9a7935fb},{654,0x44379b716bda6},{654,0x4b0e9809edfa2},{654,0x53ba9a3eba3fc},{654,0x58c47e6eea282},{654,0x621384f31765b},{654,0x66ed3a8d43b8e},{654,0x67ef47243375e},{654,0x6b3cbc1048fc9},{654,0x6c74a426fa60c},{654,0x730a527544032},{654,0x7858d30be8423},{654,0x7db4f9b1a7d10},{654,0x82b22e9088e4d},{654,0x83c920de69ad8},{654,0x8f11858be75b4},{654,0x902d375306a57},{654,0x925a0aabcdc68},{654,0x9884044d6bb3b},{654,0xb1a9c2e25789e},{654,0xbdc4114397ff3},{654,0xce0cd29604538},{654,0xd0f97b18e14d4},{654,0xd6f8af58c2cce},{654,0xec0b9013627d3},{654,0xec866b79e0cba},{654,0xf0484ca3a4b16},{654,0xf524eea30d0ca},{654,0xf62c2b1777dea},
{655,0x4a616046e073},{655,0xa4d73fcf622c},{655,0x101663d6ef728},{655,0x1d0c83f6378a5},{655,0x33d4032c2c7f4},{655,0x36ec21a98e00d},{655,0x378cb9a7935fb},{655,0x44379b716bda6},{655,0x58c47e6eea282},{655,0x5dee6e625311d},{655,0x621384f31765b},{655,0x63627659ff217},{655,0x66ed3a8d43b8e},{655,0x6b3cbc1048fc9},{655,0x730a527544032},{655,0x7e10f9f528f7e},{655,0x82b22e9088e4d},{655,0x83c920de69ad8},{655,0x8c1828c494be6},{655,0x902d375306a57},{655,0x9089217f5722b},{655,0x925a0aabcdc68},{655,0x9884044d6bb3b},{655,0x9ed058ce6e995},{655,0xa201e6c712a83},{655,0xb1a9c2e25789e},{655,0xb232318fa55fb},{655,0xbdc4114397ff3},{655,0xbe303ab41cb7e},{655,0xc38d011d914ef},{655,0xce0cd29604538},{655,0xd3199a3884559},{655,0xdb07e7b2028fb},{655,0xe198e09c88b01},{655,0xf62c2b1777dea},
{656,0x4a616046e073},{656,0x98075efb32dc},{656,0x101663d6ef728},{656,0x11091b36108ed},{656,0x15195c7a19fa8},{656,0x1d0c83f6378a5},{656,0x33d4032c2c7f4},{656,0x3dd79b20f51fc},{656,0x4412be23755e1},{656,0x44379b716bda6},{656,0x5098c29f575c7},{656,0x5dee6e625311d},{656,0x61244ab34a692},{656,0x621384f31765b},{656,0x730a527544032},{656,0x7f52b249601d3},{656,0x80c903f7379f1},{656,0x82b22e9088e4d},{656,0x83c920de69ad8},{656,0x8c1828c494be6},{656,0x902d375306a57},{656,0x9089217f5722b},{656,0x925a0aabcdc68},{656,0x9e8db6528cfab},{656,0xb232318fa55fb},{656,0xba80c48f7ff6f},{656,0xbe303ab41cb7e},{656,0xcdbe04c242bee},{656,0xcf1ee0d183ee7},{656,0xcff36ff802e2c},{656,0xd3199a3884559},{656,0xe0a15734262ef},{656,0xe4d451cbf9487},{656,0xe653692a21c79},{656,0xf064652e10a68},
{657,0x98075efb32dc},{657,0x101663d6ef728},{657,0x1d0c83f6378a5},{657,0x24eb1ec8e7295},{657,0x25995393a1d0b},{657,0x2b7515c4bde0e},{657,0x33d4032c2c7f4},{657,0x3dd79b20f51fc},{657,0x4412be23755e1},{657,0x44379b716bda6},{657,0x4e2f9b1fcbd3c},{657,0x5098c29f575c7},{657,0x5a2d2461cb5f6},{657,0x5dee6e625311d},{657,0x61244ab34a692},{657,0x6f9aa25439b08},{657,0x80509da2d2303},{657,0x82b22e9088e4d},{657,0x8c1828c494be6},{657,0x8f6f29faaf957},{657,0x925a0aabcdc68},{657,0x92dec04fe479c},{657,0x9545824dc6d0f},{657,0x9892e9dd47162},{657,0x9e8db6528cfab},{657,0xba80c48f7ff6f},{657,0xc0a8893094a71},{657,0xc4b12f9393cb8},{657,0xcab63f2ffeb64},{657,0xcdd4ef762b4c3},{657,0xe0a15734262ef},{657,0xe653692a21c79},{657,0xecb3697a98822},{657,0xf064652e10a68},
{658,0x8db380677ced},{658,0x98075efb32dc},{658,0xe2a4acf318ff},{658,0xedbfbedc0cea},{658,0x101663d6ef728},{658,0x1d0c83f6378a5},{658,0x23fa9e6fcf47d},{658,0x24eb1ec8e7295},{658,0x25995393a1d0b},{658,0x2b7515c4bde0e},{658,0x33d4032c2c7f4},{658,0x3b796ab9bd48a},{658,0x4412be23755e1},{658,0x44379b716bda6},{658,0x48bfe0ba4a31d},{658,0x4e2f9b1fcbd3c},{658,0x5098c29f575c7},{658,0x5a2d2461cb5f6},{658,0x5dee6e625311d},{658,0x685f7683c20cd},{658,0x80509da2d2303},{658,0x82b22e9088e4d},{658,0x8c875196183f4},{658,0x8f6f29faaf957},{658,0x925a0aabcdc68},{658,0x9545824dc6d0f},{658,0xba80c48f7ff6f},{658,0xbccacf0247c53},{658,0xc0a8893094a71},{658,0xc4733cf20db71},{658,0xc4b12f9393cb8},{658,0xcab63f2ffeb64},{658,0xcdd4ef762b4c3},{658,0xdd9538727335d},{658,0xf064652e10a68},{658,0xff2fe9bf989cf},
{659,0x3e27ebc29319},{659,0x98075efb32dc},{659,0x17518fa767163},{659,0x2096c2f969b75},{659,0x23fa9e6fcf47d},{659,0x2b7515c4bde0e},{659,0x2bd80887bf80c},{659,0x33d4032c2c7f4},{659,0x3b796ab9bd48a},{659,0x4412be23755e1},{659,0x4e2f9b1fcbd3c},{659,0x5098c29f575c7},{659,0x53b772e583f26},{659,0x660aabafd682c},{659,0x685f7683c20cd},{659,0x6e26e8fd59f3b},{659,0x7132114af4caf},{659,0x80c903f7379f1},{659,0x8442fd8ac18a9},{659,0x87dfe3cec0e2d},{659,0x8f6f29faaf957},{659,0x925a0aabcdc68},{659,0x9545824dc6d0f},{659,0xab37886ef394a},{659,0xb96d5d601d036},{659,0xba80c48f7ff6f},{659,0xbccacf0247c53},{659,0xc88253647fe59},{659,0xcab63f2ffeb64},{659,0xcdd4ef762b4c3},{659,0xef1199e1d0594},{659,0xf064652e10a68},{659,0xff2fe9bf989cf},
{660,0x3e27ebc29319},{660,0x53da21e3bfd0},{660,0x98075efb32dc},{660,0xe935eefb8848},{660,0x17518fa767163},{660,0x23fa9e6fcf47d},{660,0x2b7515c4bde0e},{660,0x3149b769a2608},{660,0x3b796ab9bd48a},{660,0x3d03d1d3c5aa4},{660,0x4412be23755e1},{660,0x4e2f9b1fcbd3c},{660,0x50afe37850ab3},{660,0x642addd71b745},{660,0x660aabafd682c},{660,0x685f7683c20cd},{660,0x6b564f19d8bac},{660,0x6e26e8fd59f3b},{660,0x7132114af4caf},{660,0x7dfffb4cd08b6},{660,0x80c903f7379f1},{660,0x8ba786e4b83c2},{660,0x8f6f29faaf957},{660,0x925a0aabcdc68},{660,0x9545824dc6d0f},{660,0x96fe70269e481},{660,0xab37886ef394a},{660,0xab6733fa49ba5},{660,0xb53652e7f0ccc},{660,0xb96d5d601d036},{660,0xba80c48f7ff6f},{660,0xc22b8e17cb952},{660,0xcab63f2ffeb64},{660,0xcb814ae9481ca},{660,0xf064652e10a68},
{661,0x3e27ebc29319},{661,0x8664a717961a},{661,0x98075efb32dc},{661,0x13ee8e95fc3cb},{661,0x18c191a335fff},{661,0x195fcae660ac5},{661,0x23fa9e6fcf47d},{661,0x2b7515c4bde0e},{661,0x3149b769a2608},{661,0x3406ae49a252f},{661,0x36ce8c50ff04e},{661,0x3b796ab9bd48a},{661,0x3d03d1d3c5aa4},{661,0x4412be23755e1},{661,0x4599b679c8bf0},{661,0x4b65b26f4b4dd},{661,0x50afe37850ab3},{661,0x5f5b646bd1fd4},{661,0x668bbd0286969},{661,0x685f7683c20cd},{661,0x68bc73b7c4252},{661,0x6e26e8fd59f3b},{661,0x841840b8c9898},{661,0x88a11a0f650bb},{661,0x8f6f29faaf957},{661,0x9545824dc6d0f},{661,0x96fe70269e481},{661,0x9a601298b74c1},{661,0xa45b1d3e67a0d},{661,0xab37886ef394a},{661,0xab6733fa49ba5},{661,0xba80c48f7ff6f},{661,0xeafe4792e00b5},{661,0xefa925fb9e4f1},{661,0xf064652e10a68},
{662,0x3e27ebc29319},{662,0xb84791a3073f},{662,0xc2ded8770baf},{662,0x13ee8e95fc3cb},{662,0x18c191a335fff},{662,0x1bf49682e5c24},{662,0x23fa9e6fcf47d},{662,0x24ba9ec7d3ebb},{662,0x2c00a65cb8cd6},{662,0x3149b769a2608},{662,0x3406ae49a252f},{662,0x346ded2dc2958},{662,0x414ec426c734a},{662,0x43743d5047f9d},{662,0x4599b679c8bf0},{662,0x4b65b26f4b4dd},{662,0x541ecdfd48693},{662,0x5f5b646bd1fd4},{662,0x685f7683c20cd},{662,0x68bc73b7c4252},{662,0x76f3e490ee71e},{662,0x96fe70269e481},{662,0xa45b1d3e67a0d},{662,0xa9e49f947306a},{662,0xab37886ef394a},{662,0xac044e3fb02df},{662,0xba80c48f7ff6f},{662,0xbc9e11b83a834},{662,0xc19401fdfd9f5},{662,0xc22b8e17cb952},{662,0xc2c31a31998ae},{662,0xc35aa64b6780b},{662,0xd10fc8344f02b},{662,0xd4f4fcd54bc9e},{662,0xd8ea5a09b4f21},{662,0xe0fb44f50586e},{662,0xf064652e10a68},{662,0xf111612195cbb},
{663,0x3e27ebc29319},{663,0x66141659546c},{663,0xb84791a3073f},{663,0xc2ded8770baf},{663,0x1bf49682e5c24},{663,0x23fa9e6fcf47d},{663,0x2c00a65cb8cd6},{663,0x2e1ae779befce},{663,0x3149b769a2608},{663,0x346ded2dc2958},{663,0x43743d5047f9d},{663,0x468d0aa5cafc4},{663,0x49e4a8ccca496},{663,0x51a0aa91d8afd},{663,0x523836aba6a5a},{663,0x541ecdfd48693},{663,0x685f7683c20cd},{663,0x68bc73b7c4252},{663,0x76f3e490ee71e},{663,0x7c3cf59dd8050},{663,0x8a31e261b91d6},{663,0xa4dbdc5664d60},{663,0xa9e49f947306a},{663,0xba80c48f7ff6f},{663,0xbc9e11b83a834},{663,0xc22b8e17cb952},{663,0xc2c31a31998ae},{663,0xce3c4a8defc30},{663,0xd4f4fcd54bc9e},{663,0xe91c647c4d998},{663,0xe9c5d8e98de08},{663,0xf064652e10a68},{663,0xf1e017511eb95},{663,0xfabcc5e7ac02a},
{664,0x3e27ebc29319},{664,0xc2ded8770baf},{664,0xe74a0d5fc57d},{664,0x19a6fedbc6381},{664,0x23fa9e6fcf47d},{664,0x2c00a65cb8cd6},{664,0x2e1ae779befce},{664,0x3149b769a2608},{664,0x346ded2dc2958},{664,0x3f294afd466f7},{664,0x43743d5047f9d},{664,0x49e4a8ccca496},{664,0x51a0aa91d8afd},{664,0x52cfc2c5749b6},{664,0x541ecdfd48693},{664,0x57764094c6848},{664,0x685f7683c20cd},{664,0x68bc73b7c4252},{664,0x6ad737c7e8858},{664,0x76f3e490ee71e},{664,0x7948ac72bd951},{664,0x86cc2807147d9},{664,0x8a31e261b91d6},{664,0x99c8fb24947a9},{664,0xa298178f6f1a7},{664,0xaff367b607c79},{664,0xb03f79177f4c1},{664,0xb05863aa75afb},{664,0xb7f96fa2f14d2},{664,0xc2c31a31998ae},{664,0xc980820860501},{664,0xf0031f1cadb31},{664,0xf1e017511eb95},{664,0xfabcc5e7ac02a},
{665,0x5d2fdeb53c57},{665,0xc2ded8770baf},{665,0x19a6fedbc6381},{665,0x1ad6170f6223a},{665,0x23fa9e6fcf47d},{665,0x2c00a65cb8cd6},{665,0x3149b769a2608},{665,0x346ded2dc2958},{665,0x35a3d4b6cf73f},{665,0x3f294afd466f7},{665,0x43743d5047f9d},{665,0x46f8d0c15d67c},{665,0x4f2f1a7459739},{665,0x52cfc2c5749b6},{665,0x541ecdfd48693},{665,0x57764094c6848},{665,0x685f7683c20cd},{665,0x68bc73b7c4252},{665,0x6959f1d217e5c},{665,0x69f70312eb87b},{665,0x6a16c23b55d73},{665,0x6ad737c7e8858},{665,0x6b0194e338974},{665,0x76f3e490ee71e},{665,0x79e6507d5ed4c},{665,0x7b5b72c65bc1d},{665,0x8a31e261b91d6},{665,0x8a48bd2085bd3},{665,0x8ac96e7b87132},{665,0xa62eb83cc2594},{665,0xb03f79177f4c1},{665,0xb27ddcd3f674e},{665,0xb7f96fa2f14d2},{665,0xba02b92d34cbe},{665,0xc2c31a31998ae},{665,0xc980820860501},{665,0xca7eb0ac40ba9},{665,0xf0031f1cadb31},{665,0xf029999d1338a},{665,0xfabcc5e7ac02a},{665,0xfdf5d4460d8d0},
{666,0xc2ded8770baf},{666,0x27a569c94ad60},{666,0x2c00a65cb8cd6},{666,0x2c9d0b1923744},{666,0x3420f82cf78a6},{666,0x346ded2dc2958},{666,0x35a3d4b6cf73f},{666,0x43743d5047f9d},{666,0x46f8d0c15d67c},{666,0x4bba6ca5eb715},{666,0x4f2f1a7459739},{666,0x541ecdfd48693},{666,0x6486f58bb0448},{666,0x67bd2061d2158},{666,0x6ad737c7e8858},{666,0x71fd0affd50d4},{666,0x84ddf5797b795},{666,0x8a31e261b91d6},{666,0x8ac96e7b87132},{666,0x98304d4f3dbb5},{666,0xa6c64456904f0},{666,0xb7f96fa2f14d2},{666,0xc2c31a31998ae},{666,0xca7eb0ac40ba9},{666,0xdebff00ca2c6c},{666,0xe6ca76d78c8aa},{666,0xe81e35d86d2f0},{666,0xe8f20760fd87c},{666,0xecbe5afa2764b},{666,0xf0031f1cadb31},{666,0xf578ef57031ba},{666,0xfabcc5e7ac02a},{666,0xfdf5d4460d8d0},
{667,0xc2ded8770baf},{667,0xc584aa2c0ccb},{667,0x15a650e1c51c7},{667,0x19d33a67913d0},{667,0x2ea49f400d250},{667,0x3420f82cf78a6},{667,0x36d2ecea6b5f8},{667,0x46f8d0c15d67c},{667,0x4b5083e1a344f},{667,0x4bba6ca5eb715},{667,0x5230ac7c47e2d},{667,0x541ecdfd48693},{667,0x6486f58bb0448},{667,0x6ad737c7e8858},{667,0x7e3142d0605f2},{667,0x86f976fe445a3},{667,0x913117d87b6c5},{667,0x94fb3d51632d3},{667,0x9d57ef4290bfe},{667,0xa2775283b57a6},{667,0xa9ef36db470b1},{667,0xa9f9ce221b0f8},{667,0xb3679a359b6c9},{667,0xb7f96fa2f14d2},{667,0xc2c31a31998ae},{667,0xca7eb0ac40ba9},{667,0xd0c1851f1e28d},{667,0xd2a3d8c35d12f},{667,0xd5b561574765b},{667,0xd5d7aca57df13},{667,0xdaf7a1f47f6d1},{667,0xdc0f190808b0b},{667,0xdebff00ca2c6c},{667,0xecbe5afa2764b},{667,0xf0031f1cadb31},{667,0xf3bd9070e9b3b},{667,0xf578ef57031ba},{667,0xfabcc5e7ac02a},{667,0xfdf5d4460d8d0},
{668,0xc584aa2c0ccb},{668,0x14dc489a3e145},{668,0x19d33a67913d0},{668,0x26fa194a4463b},{668,0x2ea49f400d250},{668,0x36d2ecea6b5f8},{668,0x46f8d0c15d67c},{668,0x541ecdfd48693},{668,0x594f97ff117a5},{668,0x74b811a289711},{668,0x7ccb038e02753},{668,0x7e3142d0605f2},{668,0x913117d87b6c5},{668,0x9361536052be1},{668,0x94fb3d51632d3},{668,0xa8bc13d5428a6},{668,0xb3679a359b6c9},{668,0xc2c31a31998ae},{668,0xc5f6eee013b78},{668,0xca7eb0ac40ba9},{668,0xd2a3d8c35d12f},{668,0xd5b561574765b},{668,0xd5d7aca57df13},{668,0xdaf7a1f47f6d1},{668,0xdebff00ca2c6c},{668,0xe2dc4039fa8c6},{668,0xe5bf25836515c},{668,0xecbe5afa2764b},{668,0xf0031f1cadb31},{668,0xf3bd9070e9b3b},{668,0xfabcc5e7ac02a},{668,0xfdf5d4460d8d0},
{669,0xddfdaf3728d},{669,0x6727963a9ef8},{669,0x7dd3325f977c},{669,0x13425ea92da53},{669,0x14124052b70c3},{669,0x14dc489a3e145},{669,0x19398fe0315e7},{669,0x19d33a67913d0},{669,0x26fa194a4463b},{669,0x2c095ba4561f0},{669,0x347d8b4bc33ec},{669,0x541ecdfd48693},{669,0x5b0e92315be30},{669,0x62f2e4fca2344},{669,0x63bced44293c6},{669,0x6536da27462a0},{669,0x73c010aecd93a},{669,0x74b811a289711},{669,0x7ccb038e02753},{669,0x9361536052be1},{669,0x94fb3d51632d3},{669,0x9fc70edfce001},{669,0xa312eda1af43f},{669,0xa8bc13d5428a6},{669,0xb1d389a68d5c5},{669,0xb72d6e36b9cbe},{669,0xb9b7dc71d3ad9},{669,0xbf910354dbfa5},{669,0xc2c31a31998ae},{669,0xc975eac18c4ba},{669,0xca7eb0ac40ba9},{669,0xcad60c1d128f0},{669,0xd5b561574765b},{669,0xd5d7aca57df13},{669,0xe2dc4039fa8c6},{669,0xe5bf25836515c},{669,0xe926fbc3219df},{669,0xecbe5afa2764b},{669,0xf3bd9070e9b3b},{669,0xfabcc5e7ac02a},{669,0xfdf5d4460d8d0},
{670,0xddfdaf3728d},{670,0xa46becd57eed},{670,0x14124052b70c3},{670,0x14dc489a3e145},{670,0x15db9e137e15b},{670,0x19398fe0315e7},{670,0x19d33a67913d0},{670,0x26fa194a4463b},{670,0x2c095ba4561f0},{670,0x347d8b4bc33ec},{670,0x38d7a96549a09},{670,0x3cd1824be4c3f},{670,0x4b108d257b1f2},{670,0x541ecdfd48693},{670,0x5b0e92315be30},{670,0x62f2e4fca2344},{670,0x6536da27462a0},{670,0x6a62b7bccc54b},{670,0x734e91994e1f4},{670,0x73c010aecd93a},{670,0x748d05a755cb3},{670,0x7a4dc710106e4},{670,0x8c704da9f6ba5},{670,0x94fb3d51632d3},{670,0x98a57b162c321},{670,0x9d16cb3be685b},{670,0xa532592669de3},{670,0xb1d389a68d5c5},{670,0xb3029611d7e88},{670,0xb56974fb708f3},{670,0xb72d6e36b9cbe},{670,0xb9b7dc71d3ad9},{670,0xc2c31a31998ae},{670,0xc975eac18c4ba},{670,0xd5b561574765b},{670,0xd5d7aca57df13},{670,0xe5bf25836515c},{670,0xf3bd9070e9b3b},{670,0xf645e44f8b533},{670,0xfabcc5e7ac02a},
{671,0x9b0cca0ff83f},{671,0xa46becd57eed},{671,0x102016ed13e39},{671,0x14dc489a3e145},{671,0x15db9e137e15b},{671,0x19d33a67913d0},{671,0x23dae5e943aeb},{671,0x2c095ba4561f0},{671,0x3696ace8e17c9},{671,0x3cd1824be4c3f},{671,0x4b108d257b1f2},{671,0x541ecdfd48693},{671,0x5b0e92315be30},{671,0x6c4f5c228bd05},{671,0x748d05a755cb3},{671,0x7a4dc710106e4},{671,0x84c4217c5c7c3},{671,0x8c255493ca84e},{671,0x8f4b6774575b2},{671,0x92423e7974175},{671,0x94fb3d51632d3},{671,0x9a70b4348687a},{671,0x9d16cb3be685b},{671,0xa532592669de3},{671,0xa600a87f695a5},{671,0xb3029611d7e88},{671,0xb56974fb708f3},{671,0xb705abc07d10f},{671,0xb72d6e36b9cbe},{671,0xc5a090d077403},{671,0xc975eac18c4ba},{671,0xd5b561574765b},{671,0xdaa56a78af3e9},{671,0xe5bf25836515c},{671,0xe7156fedb8c01},{671,0xf3bd9070e9b3b},{671,0xf645e44f8b533},
{672,0x30b42d426f43},{672,0x9b0cca0ff83f},{672,0x14dc489a3e145},{672,0x19d33a67913d0},{672,0x23dae5e943aeb},{672,0x2f9777721f2d9},{672,0x3c7f1d01156a6},{672,0x3cd1824be4c3f},{672,0x3e485fbac1cf2},{672,0x541ecdfd48693},{672,0x5b0e92315be30},{672,0x60480901758c4},{672,0x64ebf9af73c89},{672,0x6880544f25847},{672,0x6c4f5c228bd05},{672,0x7ecfc008e0b64},{672,0x84c4217c5c7c3},{672,0x8b5fc1ab00927},{672,0x8cdfaf66dfd4b},{672,0x8f4b6774575b2},{672,0x94fb3d51632d3},{672,0x9d16cb3be685b},{672,0x9fc70edfce001},{672,0xa532592669de3},{672,0xa90740d2f8730},{672,0xad4de710ed36b},{672,0xb3029611d7e88},{672,0xb56974fb708f3},{672,0xb72d6e36b9cbe},{672,0xd5b561574765b},{672,0xe5bf25836515c},{672,0xf645e44f8b533},
{673,0x19d33a67913d0},{673,0x22b98ac2cea1a},{673,0x23dae5e943aeb},{673,0x2b706e0e0a50d},{673,0x2b950868b7aeb},{673,0x2f9777721f2d9},{673,0x2f9c338c851fb},{673,0x31e5cdcb1493d},{673,0x3c7f1d01156a6},{673,0x3cd1824be4c3f},{673,0x541ecdfd48693},{673,0x5b0e92315be30},{673,0x5f716f733b446},{673,0x60480901758c4},{673,0x64ebf9af73c89},{673,0x7ca89391d923b},{673,0x8b5fc1ab00927},{673,0x8f4b6774575b2},{673,0x90ed765c2180f},{673,0x94fb3d51632d3},{673,0x99090446a4d97},{673,0x9c295423a7e71},{673,0x9d16cb3be685b},{673,0x9f9c91ca0cb25},{673,0xa12492312831f},{673,0xa532592669de3},{673,0xa940201bab8a7},{673,0xb72d6e36b9cbe},{673,0xbca3487721e3f},{673,0xcdbc1ebafa98b},{673,0xd5b561574765b},{673,0xd8e138d41489d},{673,0xda406654ebba8},{673,0xe75294fdc0798},{673,0xeeff57768f88b},{673,0xf645e44f8b533},{673,0xfa8cad23faed8},{673,0xfac8f03803c77},{673,0xff7afee2062da},
{674,0x83606c118293},{674,0x19d33a67913d0},{674,0x1eabbcab0308d},{674,0x2928811a76e7a},{674,0x2f9777721f2d9},{674,0x2f9c338c851fb},{674,0x31e5cdcb1493d},{674,0x3cd1824be4c3f},{674,0x417a6b1570232},{674,0x4fb900fedbcf5},{674,0x5f716f733b446},{674,0x65e065cae38a5},{674,0x66cfdfd49d540},{674,0x6863b0c790c67},{674,0x7ca89391d923b},{674,0x8092e7b2a8db4},{674,0x8f4b6774575b2},{674,0x8f51eb10a3bb1},{674,0x90ed765c2180f},{674,0x970220cc04035},{674,0x99090446a4d97},{674,0x9b0fe7c145af9},{674,0x9c13597e961aa},{674,0x9c295423a7e71},{674,0x9d16cb3be685b},{674,0x9e038c1cb5885},{674,0x9f1daeb6875bd},{674,0xa12492312831f},{674,0xa532592669de3},{674,0xa933220112f40},{674,0xb72d6e36b9cbe},{674,0xb9773bf0b23b7},{674,0xbf255f757371f},{674,0xcdbc1ebafa98b},{674,0xce08089fa23ee},{674,0xd5373864cdbca},{674,0xd5b561574765b},{674,0xd8e138d41489d},{674,0xda406654ebba8},{674,0xeeff57768f88b},{674,0xfa8cad23faed8},{674,0xfac8f03803c77},
{675,0x83606c118293},{675,0x103926dc79bbb},{675,0x1750259e6f517},{675,0x1cdd10c1157bf},{675,0x25530f9dabdcd},{675,0x2928811a76e7a},{675,0x2f9777721f2d9},{675,0x2f9c338c851fb},{675,0x417a6b1570232},{675,0x4a2acd43ed17a},{675,0x4d33110d1d0c2},{675,0x581e3ec88b86c},{675,0x5a527d5727cbf},{675,0x5f716f733b446},{675,0x66cfdfd49d540},{675,0x6ef5b40c2fc77},{675,0x7ca89391d923b},{675,0x8092e7b2a8db4},{675,0x8104dcf745b8b},{675,0x86cb04f6fd525},{675,0x8f51eb10a3bb1},{675,0x90ed765c2180f},{675,0x9a0c7603f5448},{675,0x9b0fe7c145af9},{675,0x9c13597e961aa},{675,0x9d16cb3be685b},{675,0x9e038c1cb5885},{675,0x9e1a3cf936f0c},{675,0x9f1daeb6875bd},{675,0xa532592669de3},{675,0xaf54ca8b8e0cd},{675,0xb72d6e36b9cbe},{675,0xb9773bf0b23b7},{675,0xbdbcc1a7b25b7},{675,0xc50d6da453c14},{675,0xc6859758bbef6},{675,0xd5373864cdbca},{675,0xd5b561574765b},{675,0xd8e138d41489d},{675,0xda406654ebba8},{675,0xdf502f2bbccfc},{675,0xdf8d248111b8d},{675,0xe201018542f5f},{675,0xe4d9e2ad37b72},{675,0xeeff57768f88b},{675,0xfa8cad23faed8},
{676,0x79513966c734},{676,0x1750259e6f517},{676,0x2f9777721f2d9},{676,0x2f9c338c851fb},{676,0x4246edec1bb82},{676,0x48c26e160b9c0},{676,0x49fc5c98243a9},{676,0x4d33110d1d0c2},{676,0x5505bf2b01cda},{676,0x5a527d5727cbf},{676,0x5f716f733b446},{676,0x66cfdfd49d540},{676,0x66e2fc5fe2f3b},{676,0x6ef5b40c2fc77},{676,0x6f2097be0dfd5},{676,0x731f136141992},{676,0x7ca89391d923b},{676,0x7f9c3f2984a23},{676,0x8773d34eedfeb},{676,0x8f51eb10a3bb1},{676,0x90ed765c2180f},{676,0x95feaf0eb3984},{676,0x9b0fe7c145af9},{676,0x9c13597e961aa},{676,0x9caed6ec529bf},{676,0x9d16cb3be685b},{676,0x9e038c1cb5885},{676,0x9e1a3cf936f0c},{676,0xa0212073d7c6e},{676,0xa2558ab1bb969},{676,0xa532592669de3},{676,0xaa4391d8fbf58},{676,0xaf54ca8b8e0cd},{676,0xb72d6e36b9cbe},{676,0xb74dcb500a157},{676,0xb85a0b41d2ef5},{676,0xc50d6da453c14},{676,0xd5b561574765b},{676,0xdf502f2bbccfc},{676,0xdf8d248111b8d},{676,0xe201018542f5f},{676,0xeeff57768f88b},{676,0xfa0cdb5dcfb06},{676,0xff7afee2062da},
{677,0x79513966c734},{677,0x12686b960cd73},{677,0x1b96458445d07},{677,0x2496fac377c5c},{677,0x376f0b97888a1},{677,0x48c26e160b9c0},{677,0x4ccbbb114c67f},{677,0x5505bf2b01cda},{677,0x5a527d5727cbf},{677,0x5ea4f05297586},{677,0x63527814feaf2},{677,0x6ef5b40c2fc77},{677,0x7372a16114a18},{677,0x7ca89391d923b},{677,0x7f9c3f2984a23},{677,0x8f51eb10a3bb1},{677,0x93a7dfa7015b6},{677,0x95feaf0eb3984},{677,0x9b0fe7c145af9},{677,0x9c13597e961aa},{677,0x9d16cb3be685b},{677,0x9e038c1cb5885},{677,0xa0212073d7c6e},{677,0xaf54ca8b8e0cd},{677,0xb74dcb500a157},{677,0xc8aae60868816},{677,0xcb4efd3de372a},{677,0xd1ac058120fbd},{677,0xd5b561574765b},{677,0xdf8d248111b8d},{677,0xe201018542f5f},{677,0xeeff57768f88b},{677,0xef654caa0d4d4},{677,0xfa0cdb5dcfb06},{677,0xfa266bb8a5230},{677,0xff7afee2062da},
{678,0x12686b960cd73},{678,0x17b529c232d58},{678,0x1b96458445d07},{678,0x24da2d23c94df},{678,0x30a6411b49c60},{678,0x35b0aa3542d6e},{678,0x376f0b97888a1},{678,0x3d83da7bc08a6},{678,0x4213cd3670d2e},{678,0x5a527d5727cbf},{678,0x5ea4f05297586},{678,0x6ef5b40c2fc77},{678,0x7372a16114a18},{678,0x78fac80b8f480},{678,0x7ca89391d923b},{678,0x8f51eb10a3bb1},{678,0x95feaf0eb3984},{678,0x9b0fe7c145af9},{678,0x9b75053cc75bd},{678,0x9cefd0ec1cc26},{678,0x9e038c1cb5885},{678,0xa0212073d7c6e},{678,0xaf54ca8b8e0cd},{678,0xb74dcb500a157},{678,0xc2d92f15b77c1},{678,0xcb4efd3de372a},{678,0xd1ac058120fbd},{678,0xdf8d248111b8d},{678,0xeeff57768f88b},{678,0xef654caa0d4d4},{678,0xfa0cdb5dcfb06},
{679,0x6de725c61a0},{679,0xad358c0ede54},{679,0x1338470923d59},{679,0x17b529c232d58},{679,0x17ce8c7c7e081},{679,0x1b96458445d07},{679,0x2982a88de72d4},{679,0x30a6411b49c60},{679,0x317e77cf43efa},{679,0x33a9c6baa200c},{679,0x63c3791641e89},{679,0x68e201d9ec78c},{679,0x6ef5b40c2fc77},{679,0x74bd48fecf81f},{679,0x82701a0f5ecad},{679,0x95feaf0eb3984},{679,0x9b0fe7c145af9},{679,0x9cefd0ec1cc26},{679,0x9e038c1cb5885},{679,0xa6d223e493709},{679,0xa961684668b8a},{679,0xabf0aca83e00c},{679,0xaf54ca8b8e0cd},{679,0xb74dcb500a157},{679,0xcab3210f3bb95},{679,0xdf8d248111b8d},{679,0xeeff57768f88b},{679,0xef654caa0d4d4},{679,0xfa0cdb5dcfb06},
{680,0x6de725c61a0},{680,0x27f529099350},{680,0xad358c0ede54},{680,0x10e1662d07c0f},{680,0x1338470923d59},{680,0x17b529c232d58},{680,0x17ce8c7c7e081},{680,0x1b96458445d07},{680,0x228c7709167ed},{680,0x33a9c6baa200c},{680,0x3cb45798aab10},{680,0x4116fd8aa9ce8},{680,0x4207050906199},{680,0x613434b46ca08},{680,0x63c3791641e89},{680,0x68e201d9ec78c},{680,0x69e573973ce3d},{680,0x6ef5b40c2fc77},{680,0x74bd48fecf81f},{680,0x82701a0f5ecad},{680,0x88e102900142f},{680,0x95feaf0eb3984},{680,0x983e251a5b8de},{680,0x9cd46a8db5c06},{680,0xa346b40e2d21d},{680,0xa961684668b8a},{680,0xaa21cd8f6e860},{680,0xaf54ca8b8e0cd},{680,0xb05799cb39671},{680,0xcab3210f3bb95},{680,0xdf8d248111b8d},{680,0xe9e0ceb2e4f88},{680,0xeeff57768f88b},{680,0xef654caa0d4d4},{680,0xf18e9bd864d0d},{680,0xf39bf2dd2d384},{680,0xfa0cdb5dcfb06},
{681,0x6de725c61a0},{681,0x27f529099350},{681,0xad358c0ede54},{681,0x10e1662d07c0f},{681,0x1408c17f2e623},{681,0x17b529c232d58},{681,0x17ce8c7c7e081},{681,0x1b148ca59d9ae},{681,0x1b96458445d07},{681,0x228c7709167ed},{681,0x33a9c6baa200c},{681,0x3cb45798aab10},{681,0x3e653d1c59387},{681,0x4116fd8aa9ce8},{681,0x4207050906199},{681,0x64d43ae4aacc8},{681,0x65f6efa7bf9bc},{681,0x68e201d9ec78c},{681,0x6dd022af593ad},{681,0x6ef5b40c2fc77},{681,0x82701a0f5ecad},{681,0x827aadac4149b},{681,0x85a88e4fb006e},{681,0xa346b40e2d21d},{681,0xa961684668b8a},{681,0xaa21cd8f6e860},{681,0xaf54ca8b8e0cd},{681,0xb05799cb39671},{681,0xc3d1b8e2346d9},{681,0xcc305fde7c20b},{681,0xdf8d248111b8d},{681,0xe9e0ceb2e4f88},{681,0xf3c21269e283f},{681,0xf6d4671d7e745},{681,0xfa0cdb5dcfb06},
{682,0x6de725c61a0},{682,0x27f529099350},{682,0xec9ef9b1b67f},{682,0x10e1662d07c0f},{682,0x17ce8c7c7e081},{682,0x1aed9e0284119},{682,0x1b148ca59d9ae},{682,0x1b96458445d07},{682,0x2b07e3441a3de},{682,0x2da2bb7bf18b4},{682,0x33a9c6baa200c},{682,0x3bd5f8ba83f06},{682,0x4116fd8aa9ce8},{682,0x4207050906199},{682,0x42cf5795eba17},{682,0x4eaedc08f16e3},{682,0x6dd022af593ad},{682,0x6ef5b40c2fc77},{682,0x73e352b160f89},{682,0x82701a0f5ecad},{682,0x827aadac4149b},{682,0x85a88e4fb006e},{682,0x8921b5102a98b},{682,0xa961684668b8a},{682,0xaf54ca8b8e0cd},{682,0xb258502ae6479},{682,0xc3d1b8e2346d9},{682,0xc9a11b7ca6d89},{682,0xcab3210f3bb95},{682,0xcc01cfa68d3fb},{682,0xcc0e97d3f7f90},{682,0xd52298a8dc1f6},{682,0xdf8d248111b8d},{682,0xe9e0ceb2e4f88},{682,0xed1a29f060340},{682,0xfa0cdb5dcfb06},
{683,0x27f529099350},{683,0xb766be926c07},{683,0xec9ef9b1b67f},{683,0x17ce8c7c7e081},{683,0x1b148ca59d9ae},{683,0x1b96458445d07},{683,0x1eaff4a98553d},{683,0x275f29b01fcdd},{683,0x2b07e3441a3de},{683,0x2bb61f1f64e06},{683,0x33a9c6baa200c},{683,0x352b898a4e1e2},{683,0x42cf5795eba17},{683,0x47bccc1ad3648},{683,0x48a24ea3ae58d},{683,0x4bc5f3b563d6c},{683,0x4eaedc08f16e3},{683,0x590626cdf1f54},{683,0x6dd022af593ad},{683,0x915cbced54422},{683,0x928a5f50f4f72},{683,0x943517f173fc1},{683,0x98d0edc8c6d43},{683,0x99418eab49a8b},{683,0xa961684668b8a},{683,0xae93e923b7fe2},{683,0xb258502ae6479},{683,0xb98141e187c8a},{683,0xbfa2331c2552b},{683,0xcab3210f3bb95},{683,0xcc01cfa68d3fb},{683,0xcc0e97d3f7f90},{683,0xcc41b889a2de4},{683,0xd52298a8dc1f6},{683,0xd587eedcf64cb},{683,0xd9bb53d9f689f},{683,0xe9e0ceb2e4f88},{683,0xfa0cdb5dcfb06},
{684,0x465e9d2cec8d},{684,0xec9ef9b1b67f},{684,0x17ce8c7c7e081},{684,0x1b148ca59d9ae},{684,0x1b96458445d07},{684,0x2619ed6d94f86},{684,0x2bb61f1f64e06},{684,0x2d4ef20934d4c},{684,0x31a988cf8c9a7},{684,0x33a9c6baa200c},{684,0x352b898a4e1e2},{684,0x42cf5795eba17},{684,0x4eaedc08f16e3},{684,0x584fbd22a26e2},{684,0x58f95ea0873bf},{684,0x590626cdf1f54},{684,0x5a6bea17c7bc9},{684,0x5ec9214a879a8},{684,0x6a8bc3b2e6cc8},{684,0x6dd022af593ad},{684,0x711ed7ef2cff7},{684,0x928a5f50f4f72},{684,0x943517f173fc1},{684,0xa961684668b8a},{684,0xae93e923b7fe2},{684,0xb9e11e3942da7},{684,0xbf74ab91af82b},{684,0xc64b9d576253c},{684,0xcb022c1a36c57},{684,0xcc01cfa68d3fb},{684,0xcc41b889a2de4},{684,0xd587eedcf64cb},{684,0xe9e0ceb2e4f88},{684,0xf856e67509b4c},{684,0xfa0cdb5dcfb06},
{685,0x465e9d2cec8d},{685,0xec9ef9b1b67f},{685,0x1b96458445d07},{685,0x2bb61f1f64e06},{685,0x2d4ef20934d4c},{685,0x31a988cf8c9a7},{685,0x33a9c6baa200c},{685,0x38eff0917c679},{685,0x42cf5795eba17},{685,0x4eaedc08f16e3},{685,0x584fbd22a26e2},{685,0x58b975bd719d6},{685,0x6d85788afaa99},{685,0x7171f9fd32b52},{685,0x71dfb957030e2},{685,0x75c8430f73763},{685,0x8398bbd641739},{685,0x89f695fca7c29},{685,0x8acb76e924ec7},{685,0x927d97238a3dd},{685,0x928a5f50f4f72},{685,0x931c4026088f3},{685,0x943517f173fc1},{685,0x9f66dd308ac22},{685,0xa70b1b155b6b4},{685,0xa961684668b8a},{685,0xae93e923b7fe2},{685,0xbf74ab91af82b},{685,0xc64b9d576253c},{685,0xc74386cbf27b0},{685,0xcb2eca383294c},{685,0xcc01cfa68d3fb},{685,0xcc41b889a2de4},{685,0xcd8144f90ef71},{685,0xe02c3c5a99021},{685,0xfa0cdb5dcfb06},
{686,0xbe0dc5f65556},{686,0xec9ef9b1b67f},{686,0x11274440e38f9},{686,0x1343ea49ad893},{686,0x1b96458445d07},{686,0x1d5f3472ec321},{686,0x1eaff4a98553d},{686,0x2bb61f1f64e06},{686,0x42cf5795eba17},{686,0x4eaedc08f16e3},{686,0x665bf1d3e6a8c},{686,0x9039d13d5d862},{686,0x927d97238a3dd},{686,0x928a5f50f4f72},{686,0x943517f173fc1},{686,0x99418eab49a8b},{686,0x99abff21883da},{686,0x9f66dd308ac22},{686,0xa961684668b8a},{686,0xae93e923b7fe2},{686,0xbac80a71b982e},{686,0xc8cc3a9029aeb},{686,0xcc41b889a2de4},{686,0xcd8144f90ef71},{686,0xd9fcc15347ef3},{686,0xded6e9fdb3bf0},{686,0xf4574f8a6a8bb},{686,0xf5b3ec28a952b},{686,0xf856e67509b4c},{686,0xfa0cdb5dcfb06},{686,0xfc7e71ce37d0e},
{687,0x2b309dc02b92},{687,0x37e956fb583c},{687,0xcc4f55eecfe9},{687,0x1b96458445d07},{687,0x1d5f3472ec321},{687,0x22455aeba3cb4},{687,0x3607083deed02},{687,0x37c5c0785a97f},{687,0x42cf5795eba17},{687,0x4ab680f2e7418},{687,0x4d4626051164a},{687,0x4eaedc08f16e3},{687,0x4ffc9eb17cefb},{687,0x5aa12252e7070},{687,0x7a412cd7c7479},{687,0x9039d13d5d862},{687,0x927d97238a3dd},{687,0x928a5f50f4f72},{687,0x9b9353902b169},{687,0x9f66dd308ac22},{687,0xa961684668b8a},{687,0xae93e923b7fe2},{687,0xc8cc3a9029aeb},{687,0xd545686b7f22d},{687,0xd9fcc15347ef3},{687,0xe86c451509ef4},{687,0xf856e67509b4c},
{688,0xcc4f55eecfe9},{688,0x1d5f3472ec321},{688,0x22455aeba3cb4},{688,0x26b5a766aa01f},{688,0x2fde83bdd6b1c},{688,0x37c5c0785a97f},{688,0x3b3650092610f},{688,0x4377c3a82b82e},{688,0x4d4626051164a},{688,0x5aa12252e7070},{688,0x6039dfe9ad03d},{688,0x677a6132d2cbb},{688,0x6b01117c903d0},{688,0x6f3155930b5c0},{688,0x7846f11e7efe0},{688,0x7a412cd7c7479},{688,0x8201454ca7dfd},{688,0x8612ee037449e},{688,0x88b74499ec03c},{688,0x9039d13d5d862},{688,0x927d97238a3dd},{688,0x94fcb002626f7},{688,0x97d05736f4242},{688,0x98a65769f9486},{688,0x9b9353902b169},{688,0x9f66dd308ac22},{688,0xa9cbd8bca74d9},{688,0xb113b91ce1e34},{688,0xb1ea90d115ee9},{688,0xb286f66d2ff6b},{688,0xc8cc3a9029aeb},{688,0xd545686b7f22d},{688,0xdc1b0cfd3fb22},{688,0xe3c8ecde10fd7},{688,0xe86c451509ef4},{688,0xffc81bc29f02a},
{689,0x3eb8baf6572a},{689,0xafc8d60976ff},{689,0xcc4f55eecfe9},{689,0x1d5f3472ec321},{689,0x2fde83bdd6b1c},{689,0x3b3650092610f},{689,0x42f6687e06a94},{689,0x4377c3a82b82e},{689,0x665bf1d3e6a8c},{689,0x677a6132d2cbb},{689,0x67a2b07730b9f},{689,0x6f3155930b5c0},{689,0x727ca759efaf9},{689,0x7846f11e7efe0},{689,0x7cfbfc2b2e84c},{689,0x7ec5b866c29a1},{689,0x8201454ca7dfd},{689,0x9039d13d5d862},{689,0x94fcb002626f7},{689,0x99418eab49a8b},{689,0x9b9353902b169},{689,0x9b9b9a33bf732},{689,0x9ba276295c78b},{689,0x9f66dd308ac22},{689,0xa9cbd8bca74d9},{689,0xb62a6f1d4e9c2},{689,0xbff2ee48e052f},{689,0xc10c221b49167},{689,0xdc1b0cfd3fb22},{689,0xe3886b35282ec},{689,0xe3c8ecde10fd7},{689,0xec642c8ca1a49},{689,0xffc81bc29f02a},
{690,0x3eb8baf6572a},{690,0xcc4f55eecfe9},{690,0x1834a4d45e723},{690,0x1e67f79d8a442},{690,0x1f90eddc45c1d},{690,0x375e8b5db72a8},{690,0x3b3650092610f},{690,0x42f6687e06a94},{690,0x4377c3a82b82e},{690,0x5b29df55793f4},{690,0x665bf1d3e6a8c},{690,0x677a6132d2cbb},{690,0x67a2b07730b9f},{690,0x72811462e6af4},{690,0x7846f11e7efe0},{690,0x7cfbfc2b2e84c},{690,0x804cb66d03ae6},{690,0x8201454ca7dfd},{690,0x83bcabae290f8},{690,0x9039d13d5d862},{690,0x9b9353902b169},{690,0x9d813bb2251aa},{690,0x9f66dd308ac22},{690,0xa332202d56112},{690,0xa64f063b27543},{690,0xb77cb8aad52f5},{690,0xc10c221b49167},{690,0xc9599963e47c6},{690,0xcae0976a2590b},{690,0xcfa2104b2023a},{690,0xd08c53050a470},{690,0xd638392ab1f69},{690,0xdc1b0cfd3fb22},{690,0xe3886b35282ec},{690,0xe3c8ecde10fd7},{690,0xec642c8ca1a49},{690,0xecbe6c835d281},{690,0xffc81bc29f02a},
{691,0x3eb8baf6572a},{691,0x5059375f6981},{691,0xcc4f55eecfe9},{691,0x18f13fedec7c5},{691,0x1f90eddc45c1d},{691,0x206d307f6e5ab},{691,0x298c04f166ff1},{691,0x3143ab2d26358},{691,0x3476ef4fb4b60},{691,0x3b3650092610f},{691,0x3fd78303989ef},{691,0x5b29df55793f4},{691,0x613ca305b64fa},{691,0x677a6132d2cbb},{691,0x7846f11e7efe0},{691,0x7cc1b0f125135},{691,0x7d41824d64fb2},{691,0x804cb66d03ae6},{691,0x8201454ca7dfd},{691,0x83bcabae290f8},{691,0x99b5f8b559cba},{691,0x9b9353902b169},{691,0x9e740c7157ee6},{691,0x9f59254550b70},{691,0x9f66dd308ac22},{691,0xa332202d56112},{691,0xa64f063b27543},{691,0xb77cb8aad52f5},{691,0xc10c221b49167},{691,0xc9599963e47c6},{691,0xcfa2104b2023a},{691,0xd2bedf6c298a2},{691,0xd302680c9d690},{691,0xd4c750a931694},{691,0xdc1b0cfd3fb22},{691,0xea47b635e835f},{691,0xecbe6c835d281},{691,0xffc81bc29f02a},
{692,0x3eb8baf6572a},{692,0xcc4f55eecfe9},{692,0x10045a0ad89ad},{692,0x1475d5c0c3179},{692,0x18f13fedec7c5},{692,0x1f90eddc45c1d},{692,0x206d307f6e5ab},{692,0x28c424437b03c},{692,0x298c04f166ff1},{692,0x3fd78303989ef},{692,0x44c353280908f},{692,0x4ff632b6a83e3},{692,0x53a8f21b35b55},{692,0x5b29df55793f4},{692,0x7cc1b0f125135},{692,0x7d41824d64fb2},{692,0x83bcabae290f8},{692,0x8c7986eb7e7b6},{692,0x93b4029d88539},{692,0x944620030d033},{692,0x99b5f8b559cba},{692,0x9e740c7157ee6},{692,0x9eed74d0f1584},{692,0xa332202d56112},{692,0xa64f063b27543},{692,0xab5f89dd633c4},{692,0xacae47a55256a},{692,0xaf5964ca68a2b},{692,0xbff2ee48e052f},{692,0xc9599963e47c6},{692,0xd0f6ffa962f73},{692,0xd302680c9d690},{692,0xd70d67e8a05db},{692,0xea47b635e835f},{692,0xfaa5463bd795c},{692,0xffc81bc29f02a},
{693,0xcc4f55eecfe9},{693,0x18f13fedec7c5},{693,0x1f90eddc45c1d},{693,0x206d307f6e5ab},{693,0x23759cb229989},{693,0x28c424437b03c},{693,0x41e5a5ee5c991},{693,0x44c353280908f},{693,0x49c03a8f672a2},{693,0x50858ab0fd00e},{693,0x53a8f21b35b55},{693,0x59a2783ce70ab},{693,0x5a4249bf0bc97},{693,0x635e1b5d4ad77},{693,0x6c35b0d16f1d3},{693,0x7d26082060686},{693,0x7d41824d64fb2},{693,0x93b4029d88539},{693,0x944620030d033},{693,0x94f7e4f95ba8e},{693,0x9e740c7157ee6},{693,0x9eb0c0a124a35},{693,0x9eed74d0f1584},{693,0xa0d3164f56ffc},{693,0xa64f063b27543},{693,0xacae47a55256a},{693,0xaf5964ca68a2b},{693,0xc9599963e47c6},{693,0xd0f6ffa962f73},{693,0xd70d67e8a05db},{693,0xe6d3d7243a7f6},{693,0xe96aef2b09eb9},{693,0xfaa5463bd795c},{693,0xffc81bc29f02a},
{694,0xcc4f55eecfe9},{694,0x14942fd8a9720},{694,0x18f13fedec7c5},{694,0x206d307f6e5ab},{694,0x2257b3e3266c6},{694,0x28066ae197a57},{694,0x28c424437b03c},{694,0x3999c4d67c22e},{694,0x3bd4fe4f411b4},{694,0x3c99b30c96664},{694,0x3dfd161006bb8},{694,0x41e5a5ee5c991},{694,0x49c03a8f672a2},{694,0x59a2783ce70ab},{694,0x635e1b5d4ad77},{694,0x7547da69c759d},{694,0x76ab3d6d37af2},{694,0x7d26082060686},{694,0x7d41824d64fb2},{694,0x84d690cc3915d},{694,0x90ed3c96a7a90},{694,0x94f7e4f95ba8e},{694,0x9e740c7157ee6},{694,0x9eb0c0a124a35},{694,0x9fa3916057771},{694,0xa0d3164f56ffc},{694,0xa826d339ce01c},{694,0xb89d5eac6d5d3},{694,0xbe7711f17fb58},{694,0xbfece7090b018},{694,0xdf1f96da0f5c1},{694,0xe96aef2b09eb9},{694,0xf3d16fa9365fe},{694,0xffc81bc29f02a},
{695,0x141ac77910082},{695,0x1475d5c0c3179},{695,0x17f7d4ed8c33d},{695,0x206d307f6e5ab},{695,0x28c424437b03c},{695,0x31296b36e579e},{695,0x3dfd161006bb8},{695,0x41e5a5ee5c991},{695,0x52a1e0a5d3b84},{695,0x59a2783ce70ab},{695,0x635e1b5d4ad77},{695,0x7547da69c759d},{695,0x7d26082060686},{695,0x7d41824d64fb2},{695,0x84d690cc3915d},{695,0x9ae57da459545},{695,0x9dce8d08f00ef},{695,0x9e740c7157ee6},{695,0x9ecf1ab90afdd},{695,0xa0d3164f56ffc},{695,0xa3f3bf64524dc},{695,0xa826d339ce01c},{695,0xb88978fb4dad8},{695,0xbe7711f17fb58},{695,0xd1b9ccb14aa40},{695,0xd3f7777e36823},{695,0xdf1f96da0f5c1},{695,0xe3dd631d48967},{695,0xeace522e7a40e},{695,0xffc81bc29f02a},
{696,0xea9e452953e7},{696,0x110c8b441d6f9},{696,0x12eb428a107f7},{696,0x18929bde63c9a},{696,0x27439dd9aff8a},{696,0x31296b36e579e},{696,0x370c26fed5112},{696,0x41e5a5ee5c991},{696,0x59a2783ce70ab},{696,0x5c7d8337d0c1d},{696,0x5df5ca28ef40d},{696,0x68757bbea482c},{696,0x7c38c97af9044},{696,0x7d41824d64fb2},{696,0x84d690cc3915d},{696,0x9ae57da459545},{696,0x9e740c7157ee6},{696,0xa0d3164f56ffc},{696,0xa2386535b0a5c},{696,0xa77da77f57cf9},{696,0xa826d339ce01c},{696,0xb88978fb4dad8},{696,0xbdddc76290f4f},{696,0xbe7711f17fb58},{696,0xd883b6618cb1c},{696,0xdf1f96da0f5c1},{696,0xe3a0aeed7be18},{696,0xe3dd631d48967},{696,0xe9f1b49fb55ac},{696,0xffc81bc29f02a},
{697,0x80e2f1b736af},{697,0xcfda9df12d40},{697,0x107fb784aff3a},{697,0x12eb428a107f7},{697,0x1349becc9211a},{697,0x18929bde63c9a},{697,0x2784d0aa12159},{697,0x31296b36e579e},{697,0x41e5a5ee5c991},{697,0x420b4d3fb8ab9},{697,0x48574f9dde0de},{697,0x4c764cda167d9},{697,0x524290138a79e},{697,0x59a2783ce70ab},{697,0x5c7d8337d0c1d},{697,0x5df5ca28ef40d},{697,0x68757bbea482c},{697,0x6aeda0dbf0077},{697,0x7396e2fac1638},{697,0x7d41824d64fb2},{697,0x8474aaa33287f},{697,0x84d690cc3915d},{697,0x884e277c39424},{697,0x8bc01fcfbbffd},{697,0x9ae57da459545},{697,0x9d6d6024bac61},{697,0xa52278b5ca1b7},{697,0xa826d339ce01c},{697,0xc6f2ba0203d44},{697,0xd4560cc8859ae},{697,0xdea96a37ad1dd},{697,0xdf1f96da0f5c1},{697,0xe4d033dc7b6a3},{697,0xf5288bbc51934},{697,0xffc81bc29f02a},
{698,0x80e2f1b736af},{698,0xbdf6e7d31c66},{698,0xcfda9df12d40},{698,0x28b6b40403118},{698,0x31296b36e579e},{698,0x41e5a5ee5c991},{698,0x4845a08cfb866},{698,0x4c764cda167d9},{698,0x59a2783ce70ab},{698,0x5c7d8337d0c1d},{698,0x67c2093077ba8},{698,0x68757bbea482c},{698,0x72b14c0651854},{698,0x7396e2fac1638},{698,0x7bddbb3345f4d},{698,0x7d41824d64fb2},{698,0x884e277c39424},{698,0x9047881304db7},{698,0x983a7d5b03a20},{698,0x9ae57da459545},{698,0xa76581fc9c4ef},{698,0xb8b0aa9ba54bc},{698,0xd8723750dc978},{698,0xdea96a37ad1dd},{698,0xe4cf1e0dcd89e},{698,0xffc81bc29f02a},
{699,0x367615186cfb},{699,0x43ffe812b75e},{699,0x28b6b40403118},{699,0x2a1b5f0d87ea2},{699,0x31296b36e579e},{699,0x374f1f0d05e5f},{699,0x37e09da6218a6},{699,0x4c764cda167d9},{699,0x560ba23ba8024},{699,0x59a2783ce70ab},{699,0x5df5ca28ef40d},{699,0x5ff459c7768d7},{699,0x62c3916d3040c},{699,0x68757bbea482c},{699,0x7281c5beee5ad},{699,0x7396e2fac1638},{699,0x7bddbb3345f4d},{699,0x7d41824d64fb2},{699,0x7eb0dcf618a9c},{699,0x84cf30be8a556},{699,0x8929916c462b3},{699,0x9044526b9e722},{699,0x943f67e3510a1},{699,0x961a595d93523},{699,0x983a7d5b03a20},{699,0x9ae57da459545},{699,0xa76581fc9c4ef},{699,0xb056f787e0af8},{699,0xb5733cb32b110},{699,0xb813291898618},{699,0xb8b0aa9ba54bc},{699,0xb9af7f5eb0331},{699,0xc9fbd33aae488},{699,0xcfb278a97035e},{699,0xd6ec9b2bfb6f8},{699,0xdb46fbd9b7455},{699,0xdea96a37ad1dd},{699,0xe4cf1e0dcd89e},{699,0xffc81bc29f02a},
{700,0x367615186cfb},{700,0x43ffe812b75e},{700,0x1ab4b4dc0877e},{700,0x1ac63ad922ff7},{700,0x1afd66c55cd84},{700,0x2e68c40c6dd58},{700,0x31296b36e579e},{700,0x37e09da6218a6},{700,0x3fa28e4266624},{700,0x4782d38513d99},{700,0x4c764cda167d9},{700,0x560ba23ba8024},{700,0x59a2783ce70ab},{700,0x5df5ca28ef40d},{700,0x5ff459c7768d7},{700,0x62c3916d3040c},{700,0x700289dd4a9df},{700,0x7396e2fac1638},{700,0x7d41824d64fb2},{700,0x9044526b9e722},{700,0x917fef827f456},{700,0x943f67e3510a1},{700,0x961a595d93523},{700,0x984789b4713d1},{700,0xa76581fc9c4ef},{700,0xb056f787e0af8},{700,0xb1bffd81f319d},{700,0xb813291898618},{700,0xb8b0aa9ba54bc},{700,0xc7cea2e3d05da},{700,0xc9fbd33aae488},{700,0xd41257fd2666b},{700,0xdea96a37ad1dd},{700,0xe131f5f848f92},{700,0xec922478c0421},{700,0xf6f77a1ff5feb},{700,0xffc81bc29f02a},
{701,0x43ffe812b75e},{701,0xcd5c1ae42ed6},{701,0x1ab4b4dc0877e},{701,0x1ac63ad922ff7},{701,0x2051e272bfb86},{701,0x228c62e972613},{701,0x25ef100976f8e},{701,0x37e09da6218a6},{701,0x39395755b2fc0},{701,0x3b06a81ce1293},{701,0x3fa28e4266624},{701,0x4782d38513d99},{701,0x48166d86604cc},{701,0x4a847ff4bbf8d},{701,0x4c764cda167d9},{701,0x59a2783ce70ab},{701,0x5ff459c7768d7},{701,0x62c3916d3040c},{701,0x741bca97011cf},{701,0x74878e477c7fe},{701,0x7d41824d64fb2},{701,0x864eeeb870f80},{701,0x9044526b9e722},{701,0x943f67e3510a1},{701,0xa42bbdc21b69d},{701,0xa76581fc9c4ef},{701,0xb056f787e0af8},{701,0xb1bffd81f319d},{701,0xb8b0aa9ba54bc},{701,0xc30b853d87fd5},{701,0xcb529955ba051},{701,0xcf5d9f07e5e69},{701,0xd41257fd2666b},{701,0xdb39eb4eef65e},{701,0xdea96a37ad1dd},{701,0xe178010308be1},{701,0xec922478c0421},{701,0xffc81bc29f02a},
{702,0x43ffe812b75e},{702,0x557dd789805b},{702,0xcd5c1ae42ed6},{702,0xe28b60cfa011},{702,0x136e6aa1474f5},{702,0x14cbec9da81d4},{702,0x1ac63ad922ff7},{702,0x1f743dc88ee49},{702,0x2051e272bfb86},{702,0x2cbf39bb2d9bb},{702,0x3046eb8e6a88e},{702,0x3c63c66453fae},{702,0x4782d38513d99},{702,0x48166d86604cc},{702,0x4a847ff4bbf8d},{702,0x5bcfa893c4f59},{702,0x5ff459c7768d7},{702,0x6ee8e00b557e6},{702,0x7d41824d64fb2},{702,0x9044526b9e722},{702,0x943f67e3510a1},{702,0x94a431bf54a2f},{702,0x961a595d93523},{702,0xb056f787e0af8},{702,0xb1bffd81f319d},{702,0xb5733cb32b110},{702,0xc30b853d87fd5},{702,0xdb39eb4eef65e},{702,0xde7b975010f87},{702,0xdea96a37ad1dd},{702,0xe178010308be1},{702,0xe44697ce645e5},{702,0xe9e3c5651b9ed},{702,0xec922478c0421},{702,0xf3c96b1c0f489},
{703,0x43ffe812b75e},{703,0xcd5c1ae42ed6},{703,0xf0a4a3bee138},{703,0x116805effaeaa},{703,0x136e6aa1474f5},{703,0x1ac63ad922ff7},{703,0x2051e272bfb86},{703,0x237573f107cef},{703,0x2653e0fb7d25b},{703,0x2cbf39bb2d9bb},{703,0x370e87ea38474},{703,0x3c9ac34aa20ca},{703,0x4782d38513d99},{703,0x48166d86604cc},{703,0x4b45772ccda61},{703,0x52881f84a347b},{703,0x56c436ede7c20},{703,0x5bcfa893c4f59},{703,0x5d69f64ef1cf2},{703,0x5ff459c7768d7},{703,0x6ee8e00b557e6},{703,0x7d41824d64fb2},{703,0x7ec4d51cc5aee},{703,0x8780a41dad38a},{703,0x88da2ba4b4d3a},{703,0x9044526b9e722},{703,0x943f67e3510a1},{703,0x947d6a440e4bd},{703,0x94800ba26678a},{703,0x961a595d93523},{703,0xac3db6ce2a308},{703,0xaffb658a87540},{703,0xb1bffd81f319d},{703,0xb51b0c12a7eb4},{703,0xc30b853d87fd5},{703,0xc3bbd10e8ccb3},{703,0xcb9620f5db221},{703,0xcdd1e173875c5},{703,0xdaa5cf5f31600},{703,0xdb39eb4eef65e},{703,0xde7b975010f87},{703,0xe178010308be1},{703,0xe9e3c5651b9ed},{703,0xec922478c0421},
{704,0x1561b24a7e5c},{704,0x43ffe812b75e},{704,0xf0a4a3bee138},{704,0x116805effaeaa},{704,0x136e6aa1474f5},{704,0x1ac63ad922ff7},{704,0x2051e272bfb86},{704,0x21b92dd86d888},{704,0x2cbf39bb2d9bb},{704,0x379f099a86227},{704,0x48166d86604cc},{704,0x52881f84a347b},{704,0x5d69f64ef1cf2},{704,0x636da15192fdd},{704,0x666f8adb203f6},{704,0x6a02dc9da65e9},{704,0x6ee8e00b557e6},{704,0x7d41824d64fb2},{704,0x8803cc34e4088},{704,0x88da2ba4b4d3a},{704,0x9044526b9e722},{704,0x94800ba26678a},{704,0xac3db6ce2a308},{704,0xb1bffd81f319d},{704,0xba4af856d2255},{704,0xbafab5a38b84f},{704,0xc30b853d87fd5},{704,0xc3bbd10e8ccb3},{704,0xcb9620f5db221},{704,0xdaa5cf5f31600},{704,0xdb39eb4eef65e},{704,0xdbdad36c517d9},{704,0xde7b975010f87},{704,0xe178010308be1},{704,0xe3ede18c9ad7a},{704,0xe9e3c5651b9ed},{704,0xec922478c0421},{704,0xf6d2547155ada},
{705,0x1561b24a7e5c},{705,0x43ffe812b75e},{705,0x557dd789805b},{705,0x9d5d41e14c83},{705,0x116805effaeaa},{705,0x12c5fbba23d9e},{705,0x136e6aa1474f5},{705,0x1f411e81c7a9f},{705,0x2051e272bfb86},{705,0x2105882596a07},{705,0x2679422fb0bc4},{705,0x2cbf39bb2d9bb},{705,0x32bba5fb530e6},{705,0x379f099a86227},{705,0x38e6edd48f2a2},{705,0x48166d86604cc},{705,0x4a6cb85d1e1c2},{705,0x5ba177d891549},{705,0x6ee8e00b557e6},{705,0x7a9be761e33b3},{705,0x7b59eea35f58c},{705,0x7d41824d64fb2},{705,0x9044526b9e722},{705,0x9a1c08e7f85ff},{705,0xb1bffd81f319d},{705,0xba4af856d2255},{705,0xc30b853d87fd5},{705,0xc3bbd10e8ccb3},{705,0xc9f4a38b9115d},{705,0xcebe8c9415ba2},{705,0xde7b975010f87},{705,0xe178010308be1},{705,0xe2df4c68b68e3},{705,0xe3ede18c9ad7a},{705,0xec922478c0421},{705,0xf093e6ccb0620},{705,0xf2b8058f52009},{705,0xf7ecb75de5c01},
{706,0x1561b24a7e5c},{706,0xa6242e2f79a9},{706,0x116805effaeaa},{706,0x2051e272bfb86},{706,0x2105882596a07},{706,0x2679422fb0bc4},{706,0x27565b6f24c90},{706,0x2cbf39bb2d9bb},{706,0x32bba5fb530e6},{706,0x379f099a86227},{706,0x38e6edd48f2a2},{706,0x4a6cb85d1e1c2},{706,0x5fd16ae7b5158},{706,0x73da368b65b50},{706,0x7b59eea35f58c},{706,0x813ec4944faf4},{706,0x85cf20877ee57},{706,0x9044526b9e722},{706,0x92189709a3324},{706,0x9a1c08e7f85ff},{706,0xb1bffd81f319d},{706,0xba4af856d2255},{706,0xc30b853d87fd5},{706,0xc3bbd10e8ccb3},{706,0xc9f4a38b9115d},{706,0xd4d65a6fec6cf},{706,0xde760a63f71aa},{706,0xdf5d0fea8405e},{706,0xe178010308be1},{706,0xe2df4c68b68e3},{706,0xe3ede18c9ad7a},{706,0xf093e6ccb0620},{706,0xf2b8058f52009},{706,0xf7ecb75de5c01},{706,0xf9a00e8b0016c},{706,0xff38bf4d8a6d5},
{707,0x1561b24a7e5c},{707,0x59d9e0059db1},{707,0xa6242e2f79a9},{707,0x116805effaeaa},{707,0x14a508f351d66},{707,0x15cb2cf8281f7},{707,0x2051e272bfb86},{707,0x25a84824d08d9},{707,0x27565b6f24c90},{707,0x2cbf39bb2d9bb},{707,0x32bba5fb530e6},{707,0x379f099a86227},{707,0x38e6edd48f2a2},{707,0x4a6cb85d1e1c2},{707,0x4c2593844dc6b},{707,0x5b143810fa12a},{707,0x746eed1984498},{707,0x77ef0829f902a},{707,0x7b59eea35f58c},{707,0x7d7b14d7d3fe4},{707,0x7fd7792ea1df2},{707,0x85cf20877ee57},{707,0xab161a1b57ee6},{707,0xafa3e817fd183},{707,0xb1bffd81f319d},{707,0xba4af856d2255},{707,0xc9f4a38b9115d},{707,0xd4d65a6fec6cf},{707,0xe122224589355},{707,0xe178010308be1},{707,0xe27d59a401185},{707,0xe66188e6e9168},{707,0xe787bf0e60ad3},{707,0xec50906d24da2},{707,0xf02d70c989d15},{707,0xf9a00e8b0016c},{707,0xff38bf4d8a6d5},
{708,0x1561b24a7e5c},{708,0x2502cdc147a3},{708,0x59d9e0059db1},{708,0xa6242e2f79a9},{708,0x116805effaeaa},{708,0x14a508f351d66},{708,0x2051e272bfb86},{708,0x23b0577752726},{708,0x27565b6f24c90},{708,0x2b35feb952c06},{708,0x2cbf39bb2d9bb},{708,0x32bba5fb530e6},{708,0x379f099a86227},{708,0x38e6edd48f2a2},{708,0x3f6897fe3df20},{708,0x41724063a9e44},{708,0x49fd92f2c49e6},{708,0x4a6cb85d1e1c2},{708,0x62569d9ce4dff},{708,0x6a06ffc241f33},{708,0x7b59eea35f58c},{708,0x7d7b14d7d3fe4},{708,0x86dbf22b06efc},{708,0x8d0e319f439d6},{708,0x8f9364547367d},{708,0x99202a434838f},{708,0xab161a1b57ee6},{708,0xb1bffd81f319d},{708,0xbb8d91b16a0a8},{708,0xc9f4a38b9115d},{708,0xd08abb52e7181},{708,0xe27d59a401185},{708,0xe66188e6e9168},{708,0xe787bf0e60ad3},{708,0xec50906d24da2},{708,0xf02d70c989d15},{708,0xf9a00e8b0016c},{708,0xff38bf4d8a6d5},
{709,0x518590fb3bf},{709,0x2502cdc147a3},{709,0x59d9e0059db1},{709,0x8707cc3c72eb},{709,0xa6242e2f79a9},{709,0xce7759827650},{709,0x14a508f351d66},{709,0x2b35feb952c06},{709,0x365c703fee3d4},{709,0x379f099a86227},{709,0x38e6edd48f2a2},{709,0x41724063a9e44},{709,0x5fdd918754e26},{709,0x62569d9ce4dff},{709,0x7b59eea35f58c},{709,0x8d0e319f439d6},{709,0x8f9364547367d},{709,0xa224a0b00d6bf},{709,0xab161a1b57ee6},{709,0xab328946f80ea},{709,0xb7c5c5a1a25ae},{709,0xbb8d91b16a0a8},{709,0xbd4c15a3287b8},{709,0xd05d13af30f75},{709,0xd08abb52e7181},{709,0xe787bf0e60ad3},{709,0xf02d70c989d15},{709,0xff38bf4d8a6d5},
{710,0x59d9e0059db1},{710,0xbbaec5522637},{710,0x14a508f351d66},{710,0x205f599172ebe},{710,0x2656c9978dba3},{710,0x2b050c10972e4},{710,0x2b09c67e7a70a},{710,0x2b35feb952c06},{710,0x365c703fee3d4},{710,0x379f099a86227},{710,0x384d7b6c0fa22},{710,0x38e6edd48f2a2},{710,0x3a414d3d535c6},{710,0x3d2c971c1c873},{710,0x41724063a9e44},{710,0x523a66c610f31},{710,0x62569d9ce4dff},{710,0x639f8aa014ccc},{710,0x6afd58d7c5693},{710,0x7b1981bbdbd2d},{710,0x7b59eea35f58c},{710,0x8074341554a93},{710,0x8d0e319f439d6},{710,0xa224a0b00d6bf},{710,0xa5907b02eeb93},{710,0xab161a1b57ee6},{710,0xbb8d91b16a0a8},{710,0xbd4c15a3287b8},{710,0xd05d13af30f75},{710,0xd18aa85fe55be},{710,0xd5e35c1a12242},{710,0xd99c7b0388e75},{710,0xe8ca5868f8927},{710,0xf02d70c989d15},{710,0xf3f0446a89f85},{710,0xfb43581e6cbab},{710,0xff38bf4d8a6d5},
{711,0x59d9e0059db1},{711,0x205f599172ebe},{711,0x27732b1852996},{711,0x295494e8d2ace},{711,0x2b09c67e7a70a},{711,0x2b35feb952c06},{711,0x384d7b6c0fa22},{711,0x38e6edd48f2a2},{711,0x41724063a9e44},{711,0x4e433c3a51fb7},{711,0x523a66c610f31},{711,0x56ed965bfb904},{711,0x62569d9ce4dff},{711,0x6afd58d7c5693},{711,0x6df675a16e7b3},{711,0x71b1cac3b3c84},{711,0x7a2f83bb0f2f8},{711,0x7b1981bbdbd2d},{711,0x7b59eea35f58c},{711,0x8e63f26f85db5},{711,0x9dad36437b304},{711,0xa5907b02eeb93},{711,0xab161a1b57ee6},{711,0xbb8d91b16a0a8},{711,0xbd4c15a3287b8},{711,0xd05d13af30f75},{711,0xe47a6972fc148},{711,0xe8ca5868f8927},{711,0xec6a9d2889aa5},{711,0xf02d70c989d15},{711,0xf20eda9a09e4d},{711,0xff38bf4d8a6d5},
{712,0x59d9e0059db1},{712,0x12a0115c2a2f6},{712,0x2569befbd280c},{712,0x27732b1852996},{712,0x27f0e5a075b29},{712,0x2a4549d112b6a},{712,0x2a81770b22b91},{712,0x2b35feb952c06},{712,0x30da3c2ad2fae},{712,0x384d7b6c0fa22},{712,0x38e6edd48f2a2},{712,0x4065e6f53a0af},{712,0x4262dcba1b42c},{712,0x4d0f6f62541f6},{712,0x502152fe313e4},{712,0x54ffa317e1b53},{712,0x5a44426913cc7},{712,0x62569d9ce4dff},{712,0x6afd58d7c5693},{712,0x71b1cac3b3c84},{712,0x753d99ebcb4e3},{712,0x7a2f83bb0f2f8},{712,0x7ad8e7008ffbb},{712,0x7b59eea35f58c},{712,0x83f38c4fe9cc9},{712,0x8a1cd5ff9205e},{712,0x8e63f26f85db5},{712,0xa4c34a2c5f5b1},{712,0xa5907b02eeb93},{712,0xab161a1b57ee6},{712,0xab328946f80ea},{712,0xbd4c15a3287b8},{712,0xc7c841c72a017},{712,0xd0480f054d76a},{712,0xd05d13af30f75},{712,0xe119f6439b7f2},{712,0xe47a6972fc148},{712,0xe5e709b8a9e96},{712,0xec6a9d2889aa5},{712,0xf11e25b1c9db1},{712,0xf1968025e9dff},{712,0xf20eda9a09e4d},{712,0xf5d1ae3b0a0bd},{712,0xfaffa307ac342},
{713,0xaff95cc5b092},{713,0xbdcf1096c90f},{713,0xda6e6db887a5},{713,0x1e0c1a05d237e},{713,0x23be56b8651aa},{713,0x2569befbd280c},{713,0x27732b1852996},{713,0x2a4549d112b6a},{713,0x2a81770b22b91},{713,0x2abda44532bb8},{713,0x2c26b3a192ca2},{713,0x384d7b6c0fa22},{713,0x38e6edd48f2a2},{713,0x4d0f6f62541f6},{713,0x71b1cac3b3c84},{713,0x753d99ebcb4e3},{713,0x7983433358ab4},{713,0x7ad8e7008ffbb},{713,0x83f38c4fe9cc9},{713,0x8e63f26f85db5},{713,0x8f66fbc69c89c},{713,0x94c203a96c42e},{713,0xa1e87375fd698},{713,0xa3b475d15d40b},{713,0xa5907b02eeb93},{713,0xab161a1b57ee6},{713,0xab328946f80ea},{713,0xbd4c15a3287b8},{713,0xc7c841c72a017},{713,0xd0480f054d76a},{713,0xd05d13af30f75},{713,0xe098da6fd7107},{713,0xec6a9d2889aa5},{713,0xf11e25b1c9db1},{713,0xf1968025e9dff},
{714,0xaff95cc5b092},{714,0xbdcf1096c90f},{714,0xda6e6db887a5},{714,0x1e0c1a05d237e},{714,0x23be56b8651aa},{714,0x249973c9ce733},{714,0x2569befbd280c},{714,0x26d0924103ac2},{714,0x29ccef5cf2b1c},{714,0x2a81770b22b91},{714,0x2c26b3a192ca2},{714,0x358dc4b4132ba},{714,0x384d7b6c0fa22},{714,0x38e6edd48f2a2},{714,0x518826436269a},{714,0x59351883f3eab},{714,0x6426f4cd95d9f},{714,0x8c5ac7fcab07b},{714,0x8e63f26f85db5},{714,0x94c203a96c42e},{714,0x9d293f562d7e0},{714,0xa1e87375fd698},{714,0xa3b475d15d40b},{714,0xa5907b02eeb93},{714,0xab161a1b57ee6},{714,0xc51174dbc41ba},{714,0xc7c841c72a017},{714,0xd315b58fafcd6},{714,0xec6a9d2889aa5},{714,0xf11e25b1c9db1},{714,0xf15a52ebd9dd8},{714,0xf1968025e9dff},{714,0xf998cfc27b08c},{714,0xfa781f32dfc88},
{715,0xaff95cc5b092},{715,0xda6e6db887a5},{715,0x2569befbd280c},{715,0x29ccef5cf2b1c},{715,0x2a81770b22b91},{715,0x2af9d17f42bdf},{715,0x336dffafbe328},{715,0x358dc4b4132ba},{715,0x384d7b6c0fa22},{715,0x38e6edd48f2a2},{715,0x518826436269a},{715,0x57c8b36d64e8d},{715,0x6426f4cd95d9f},{715,0x66b2efe3c1ee4},{715,0x7b8c50a328916},{715,0x7c3fba45c1271},{715,0x8e0bfb98864c8},{715,0x907f60b2888db},{715,0xa1e87375fd698},{715,0xa3b475d15d40b},{715,0xa429a7bdbd8dd},{715,0xa574fa270e29f},{715,0xa5907b02eeb93},{715,0xa642082b82262},{715,0xc51174dbc41ba},{715,0xc7c841c72a017},{715,0xcf94a562b4e0f},{715,0xec6a9d2889aa5},{715,0xf11e25b1c9db1},{715,0xf1968025e9dff},{715,0xf24b07d419e74},{715,0xf82b727faa243},{715,0xfa781f32dfc88},{715,0xfaffa307ac342},
{716,0xaff95cc5b092},{716,0xda6e6db887a5},{716,0x272a47124ff70},{716,0x29ccef5cf2b1c},{716,0x2a81770b22b91},{716,0x358dc4b4132ba},{716,0x3c97e460131d1},{716,0x3fe74dbe6c5f2},{716,0x50d4bca0c9d3f},{716,0x57c8b36d64e8d},{716,0x6426f4cd95d9f},{716,0x66b2efe3c1ee4},{716,0x6faa191c5d728},{716,0x7b8c50a328916},{716,0x7c3fba45c1271},{716,0x7dbe949f6114c},{716,0x83edb54f798d5},{716,0x8e0bfb98864c8},{716,0x907f60b2888db},{716,0x9cf1557e9fa24},{716,0x9f4a5c078e637},{716,0xa3b475d15d40b},{716,0xa3dade1e26319},{716,0xa5907b02eeb93},{716,0xa642082b82262},{716,0xa7dc24346a1e8},{716,0xb095878b50db6},{716,0xc51174dbc41ba},{716,0xc7c841c72a017},{716,0xc9281d23283cb},{716,0xcf94a562b4e0f},{716,0xd33f46259f500},{716,0xf11e25b1c9db1},{716,0xf24b07d419e74},{716,0xf9f28493c7539},{716,0xfaffa307ac342},
{717,0x4d2b347eabfd},{717,0xaff95cc5b092},{717,0x182baf5a41faf},{717,0x21e8aeced7945},{717,0x272a47124ff70},{717,0x2805e80f73d57},{717,0x29ccef5cf2b1c},{717,0x2a81770b22b91},{717,0x358dc4b4132ba},{717,0x3c97e460131d1},{717,0x3d64f26487194},{717,0x50d4bca0c9d3f},{717,0x5678a1718b6ee},{717,0x57c8b36d64e8d},{717,0x6426f4cd95d9f},{717,0x665d610a9f581},{717,0x6f1f6df8fd2c9},{717,0x740a550e87b3a},{717,0x7c3fba45c1271},{717,0x8ba43bb78964d},{717,0x8e0bfb98864c8},{717,0x9f4a5c078e637},{717,0x9f6ce47a4e85e},{717,0xa3b475d15d40b},{717,0xa5ea2fd43b040},{717,0xa6df916d5b30c},{717,0xa7dc24346a1e8},{717,0xb095878b50db6},{717,0xbabf6a9b77f28},{717,0xcf94a562b4e0f},{717,0xdab0930effac9},{717,0xe5da44cefa4fc},{717,0xe68a327cf96d6},{717,0xe81c169d91580},{717,0xf24b07d419e74},{717,0xf49f38df2ab12},{717,0xf9f28493c7539},{717,0xfdb4b3b8593ad},
{718,0x4d2b347eabfd},{718,0x829597c9596a},{718,0xaff95cc5b092},{718,0x12550c4b13088},{718,0x1a3b78643f53d},{718,0x1c92cf460b5a5},{718,0x272a47124ff70},{718,0x2805e80f73d57},{718,0x29ccef5cf2b1c},{718,0x2a81770b22b91},{718,0x358dc4b4132ba},{718,0x3bff81d98ce57},{718,0x3c97e460131d1},{718,0x4f14348a4c5db},{718,0x52efda0de45c5},{718,0x5443948ca4004},{718,0x57c8b36d64e8d},{718,0x5bec757abc7f2},{718,0x665d610a9f581},{718,0x70f4d8d6e3f4c},{718,0x740a550e87b3a},{718,0x7c3fba45c1271},{718,0x7fcf6755c2dd2},{718,0x8ba43bb78964d},{718,0x8e0bfb98864c8},{718,0x9a75c682f0bea},{718,0x9f6ce47a4e85e},{718,0xa3b475d15d40b},{718,0xa5ea2fd43b040},{718,0xa7dc24346a1e8},{718,0xb027f2cf3355d},{718,0xbabf6a9b77f28},{718,0xc02b81b65019e},{718,0xcf94a562b4e0f},{718,0xe3ef3f8265009},{718,0xe68a327cf96d6},{718,0xe81c169d91580},{718,0xf24b07d419e74},{718,0xf9f28493c7539},
{719,0x4d2b347eabfd},{719,0x64279f449692},{719,0x829597c9596a},{719,0x272a47124ff70},{719,0x2a81770b22b91},{719,0x2e4db35aa7d45},{719,0x36eb41f58d2b3},{719,0x42dcb26bd7987},{719,0x45677e910ef32},{719,0x4f14348a4c5db},{719,0x52efda0de45c5},{719,0x5443948ca4004},{719,0x5bec757abc7f2},{719,0x61cce0264cbc1},{719,0x641e100bce40f},{719,0x65a9f76806c26},{719,0x70f4d8d6e3f4c},{719,0x74fc3889a165d},{719,0x7c3fba45c1271},{719,0x7fcf6755c2dd2},{719,0x8ba43bb78964d},{719,0x8e0bfb98864c8},{719,0x97e5ef204f524},{719,0xa0aaabf825f7b},{719,0xa71bbea76b333},{719,0xa7dc24346a1e8},{719,0xab6e10f2577d3},{719,0xae1335d60c85d},{719,0xba4b170abfdcf},{719,0xbabf6a9b77f28},{719,0xc02b81b65019e},{719,0xd916770617b43},{719,0xda817ef0d0253},{719,0xe469e029f1cf7},{719,0xe81c169d91580},{719,0xf49f38df2ab12},{719,0xfaffa307ac342},
{720,0x244fe3005f82},{720,0x4d2b347eabfd},{720,0x10bd2c4e0dcb1},{720,0x22c725f08e57f},{720,0x272a47124ff70},{720,0x45677e910ef32},{720,0x4c0f8ff499f5e},{720,0x4f14348a4c5db},{720,0x52efda0de45c5},{720,0x629b72f368e82},{720,0x70f4d8d6e3f4c},{720,0x74fc3889a165d},{720,0x77e125e1abd2e},{720,0x8143b38021fd5},{720,0x8ba43bb78964d},{720,0x8e0bfb98864c8},{720,0xa71bbea76b333},{720,0xa7dc24346a1e8},{720,0xad1476e29069d},{720,0xae1335d60c85d},{720,0xb32a67634488b},{720,0xc00102def0552},{720,0xcdc833d73d4a0},{720,0xd7ad2c64910da},{720,0xd916770617b43},{720,0xe469e029f1cf7},{720,0xe81c169d91580},{720,0xefb4c198cf01c},{720,0xf49f38df2ab12},
{721,0x244fe3005f82},{721,0x10bd2c4e0dcb1},{721,0x14b7a2a12af79},{721,0x19903351494a1},{721,0x22c725f08e57f},{721,0x272a47124ff70},{721,0x373a552d5d076},{721,0x399ceb8374f67},{721,0x44c2c1a37b1a3},{721,0x45677e910ef32},{721,0x4f14348a4c5db},{721,0x505afa35f0af0},{721,0x52efda0de45c5},{721,0x540178c23beda},{721,0x629b72f368e82},{721,0x70f4d8d6e3f4c},{721,0x7deece7b53061},{721,0x8143b38021fd5},{721,0x8ba43bb78964d},{721,0x8e0bfb98864c8},{721,0xaaaf5c806ae21},{721,0xae1335d60c85d},{721,0xb32a67634488b},{721,0xe81c169d91580},{721,0xefb4c198cf01c},
{722,0x9dcb715474ce},{722,0x11a45d654a618},{722,0x14b7a2a12af79},{722,0x19903351494a1},{722,0x19998ffd8803a},{722,0x1f94b3e46c49a},{722,0x20a4924fa2a2b},{722,0x250119441d875},{722,0x38e3838b7aaeb},{722,0x3945063a2d439},{722,0x44c2c1a37b1a3},{722,0x44f1518bc8ec3},{722,0x4bd94dd8afbb4},{722,0x4cb47ba9a5706},{722,0x4d69f368b5a3b},{722,0x4f14348a4c5db},{722,0x505afa35f0af0},{722,0x52efda0de45c5},{722,0x540178c23beda},{722,0x629b72f368e82},{722,0x658421ac66d40},{722,0x70f4d8d6e3f4c},{722,0x72cdfec1f771f},{722,0x7e93b5302c71c},{722,0x8005ec024a8b8},{722,0x878a9bb49e597},{722,0x8ba43bb78964d},{722,0x8e0bfb98864c8},{722,0xa12f5a0f4e3e4},{722,0xade2993879114},{722,0xae1335d60c85d},{722,0xb32a67634488b},{722,0xb5fa3def48147},{722,0xbb1a8678cc2ad},{722,0xcd320f0c9cf1f},{722,0xe469e029f1cf7},{722,0xe829115912092},{722,0xe8f733aefab09},{722,0xf1e10433ead63},{722,0xf716ddecef11b},
{723,0x96cc1324dc53},{723,0x9dcb715474ce},{723,0x11a45d654a618},{723,0x14b7a2a12af79},{723,0x19903351494a1},{723,0x1adf22c915a93},{723,0x1f94b3e46c49a},{723,0x30ffabcd9d884},{723,0x34b21c2ef3242},{723,0x38e3838b7aaeb},{723,0x3945063a2d439},{723,0x3e1a81787875e},{723,0x42d63dbc07762},{723,0x44c2c1a37b1a3},{723,0x44f1518bc8ec3},{723,0x4f14348a4c5db},{723,0x505afa35f0af0},{723,0x629b72f368e82},{723,0x658421ac66d40},{723,0x68337ead823f8},{723,0x70f4d8d6e3f4c},{723,0x7e93b5302c71c},{723,0x8005ec024a8b8},{723,0x8e0bfb98864c8},{723,0x9f1373f1c0735},{723,0xade2993879114},{723,0xb5fa3def48147},{723,0xbb1a8678cc2ad},{723,0xbe025890d9f4e},{723,0xcd320f0c9cf1f},{723,0xd285b5cb97af7},{723,0xd555455138061},{723,0xd74337bff214e},{723,0xdd92b67bec99e},{723,0xe2c2167e443c7},{723,0xe469e029f1cf7},{723,0xe829115912092},{723,0xe8f733aefab09},{723,0xf1e10433ead63},{723,0xf716ddecef11b},{723,0xfb50aa2779708},
{724,0x69b35d305ecf},{724,0x9dcb715474ce},{724,0x10dfbee0652d6},{724,0x14b7a2a12af79},{724,0x1adf22c915a93},{724,0x2152049973f4e},{724,0x3dee49c0ab0bb},{724,0x42d63dbc07762},{724,0x44c2c1a37b1a3},{724,0x4f14348a4c5db},{724,0x505afa35f0af0},{724,0x6756d3746bd08},{724,0x696ba4de68390},{724,0x70f4d8d6e3f4c},{724,0x871c646e595a6},{724,0x8e0bfb98864c8},{724,0x93cf18faf161f},{724,0x982df2138e2aa},{724,0x9f1373f1c0735},{724,0xb6ebcc5ba553d},{724,0xbb1a8678cc2ad},{724,0xbe025890d9f4e},{724,0xc196267df2833},{724,0xcd320f0c9cf1f},{724,0xd285b5cb97af7},{724,0xd555455138061},{724,0xd863567994f75},{724,0xd8cdf79b4760b},{724,0xdd92b67bec99e},{724,0xe2335cffc142d},{724,0xf25036854b242},{724,0xf716ddecef11b},{724,0xfb50aa2779708},
{725,0x1f6b63120ce2},{725,0x4bd984990e6f},{725,0x1508a9c0f833f},{725,0x197b30ff5f2b3},{725,0x1ff01e0699984},{725,0x2152049973f4e},{725,0x2a28bc0d4e660},{725,0x2bda08bb003cc},{725,0x32da51453f7d6},{725,0x4f14348a4c5db},{725,0x505afa35f0af0},{725,0x5f0ce4d9b8f3e},{725,0x6756d3746bd08},{725,0x6beed6a1549a3},{725,0x7beeb325f3eab},{725,0x7c84681cbb9b4},{725,0x871c646e595a6},{725,0x8a9cb6567270e},{725,0x8e0bfb98864c8},{725,0x982df2138e2aa},{725,0xa37f2dad2a697},{725,0xa8c931c19b77a},{725,0xb5fa3def48147},{725,0xbb1a8678cc2ad},{725,0xc7641ac547ba9},{725,0xcd320f0c9cf1f},{725,0xd3000353f2295},{725,0xd863567994f75},{725,0xd8cdf79b4760b},{725,0xda5c8965ac792},{725,0xdd92b67bec99e},{725,0xe2335cffc142d},{725,0xf00051b7ba70a},{725,0xf005c8b89c3e3},{725,0xf46e5efc86520},{725,0xf716ddecef11b},
{726,0x1f6b63120ce2},{726,0x81bf5227fd4c},{726,0x8fc561be390d},{726,0x1508a9c0f833f},{726,0x1ff01e0699984},{726,0x2928d83388be9},{726,0x2bda08bb003cc},{726,0x2f581c0fa6089},{726,0x4410f09265302},{726,0x4f14348a4c5db},{726,0x505afa35f0af0},{726,0x597b3694accb9},{726,0x78f9c4e56f20b},{726,0x7dd746ff90370},{726,0x871c646e595a6},{726,0x88def3bb22340},{726,0x8e0bfb98864c8},{726,0xa8ae8daf820c0},{726,0xa8c931c19b77a},{726,0xa992f2fd01799},{726,0xb182da4721d5f},{726,0xb5fa3def48147},{726,0xbb1a8678cc2ad},{726,0xc84bca80bd942},{726,0xca4b14e8f2564},{726,0xcd320f0c9cf1f},{726,0xd0190930478da},{726,0xd3000353f2295},{726,0xda5c8965ac792},{726,0xe2335cffc142d},{726,0xf005c8b89c3e3},{726,0xf716ddecef11b},
{727,0x81bf5227fd4c},{727,0x8fc561be390d},{727,0xa8747a4c17c8},{727,0x2928d83388be9},{727,0x2f581c0fa6089},{727,0x39f9764194dac},{727,0x46b2137e90645},{727,0x4f14348a4c5db},{727,0x505afa35f0af0},{727,0x597b3694accb9},{727,0x6c9cf6f889718},{727,0x786e54eb0cb92},{727,0x78f9c4e56f20b},{727,0x7dd746ff90370},{727,0x83ddb9449d7ff},{727,0x85ae1a99a500b},{727,0x871c646e595a6},{727,0x93ae7378e3f4b},{727,0x9c3fa7c775c11},{727,0xa7b417778b774},{727,0xa992f2fd01799},{727,0xac19e8329e581},{727,0xb182da4721d5f},{727,0xb5fa3def48147},{727,0xc47d20a19d1ee},{727,0xc5096bcc9ef7a},{727,0xcd320f0c9cf1f},{727,0xcea58c1e723fc},{727,0xd0190930478da},{727,0xd3000353f2295},{727,0xd44cdc1a0873d},{727,0xe0310f819ec61},{727,0xe182e6064733c},{727,0xe2335cffc142d},{727,0xea975fa336f2c},{727,0xed6370b0330ea},{727,0xf0ecdb16f761c},{727,0xf54ebff5ea0e1},{727,0xf716ddecef11b},{727,0xfd342ae479836},
{728,0x6454a32e27f8},{728,0x685c70ea3298},{728,0xa8747a4c17c8},{728,0x2f581c0fa6089},{728,0x39f9764194dac},{728,0x46b2137e90645},{728,0x4f14348a4c5db},{728,0x505afa35f0af0},{728,0x5428f07a8a94a},{728,0x597b3694accb9},{728,0x5a9f49d2605c6},{728,0x5c12c6e435aa3},{728,0x5e7bf8973d104},{728,0x786e54eb0cb92},{728,0x7dd746ff90370},{728,0x83ddb9449d7ff},{728,0x871c646e595a6},{728,0x97683df2f268d},{728,0xa992f2fd01799},{728,0xac19e8329e581},{728,0xb182da4721d5f},{728,0xb3f0bbccb321c},{728,0xc47d20a19d1ee},{728,0xc5096bcc9ef7a},{728,0xcbbe91fac7a41},{728,0xcea58c1e723fc},{728,0xd0190930478da},{728,0xd3000353f2295},{728,0xd44cdc1a0873d},{728,0xda4174ad1cae8},{728,0xe2335cffc142d},{728,0xe5b1dd037bc2c},{728,0xf0ecdb16f761c},{728,0xf716ddecef11b},{728,0xfd342ae479836},
{729,0x6454a32e27f8},{729,0x685c70ea3298},{729,0xa8747a4c17c8},{729,0xce3850bdd6e2},{729,0x1541a3bf57d9b},{729,0x2f581c0fa6089},{729,0x3211192771a06},{729,0x3deda4cea677f},{729,0x45ecfe5bf520a},{729,0x46b2137e90645},{729,0x505afa35f0af0},{729,0x576b796696dfa},{729,0x5a9f49d2605c6},{729,0x5e7bf8973d104},{729,0x5f6a4b5e2ca9a},{729,0x68f6786c3e32e},{729,0x7822833dc8eef},{729,0x96fff21c6e954},{729,0x97683df2f268d},{729,0x97a2a205f591e},{729,0xa035e9e3c884c},{729,0xa992f2fd01799},{729,0xb182da4721d5f},{729,0xc47d20a19d1ee},{729,0xc5096bcc9ef7a},{729,0xcbbe91fac7a41},{729,0xd3000353f2295},{729,0xd834a3375b1c7},{729,0xe5b1dd037bc2c},{729,0xe8c4575f71b8f},{729,0xf1579f3d44abd},{729,0xfd342ae479836},
{730,0x685c70ea3298},{730,0xa8747a4c17c8},{730,0xce3850bdd6e2},{730,0xf190eec761c6},{730,0x128310c236778},{730,0x1541a3bf57d9b},{730,0x16a90381c74d9},{730,0x1d2f5e90767c9},{730,0x1e6eed119775e},{730,0x2df9db9ef41f0},{730,0x420e4899395b4},{730,0x46b2137e90645},{730,0x49fff4bd1b644},{730,0x505afa35f0af0},{730,0x535dd87935d72},{730,0x576b796696dfa},{730,0x5a9f49d2605c6},{730,0x5af3b8fee9f7f},{730,0x5f6a4b5e2ca9a},{730,0x68e1c4fd49bc3},{730,0x697c155177023},{730,0x7050e9cc477c5},{730,0x73ad76292fa22},{730,0x776ed35c91350},{730,0x77a50f370a714},{730,0x7822833dc8eef},{730,0x90dabb1d65344},{730,0x96cfa6932942d},{730,0x96fff21c6e954},{730,0x97683df2f268d},{730,0x97a2a205f591e},{730,0xab678ac74da3d},{730,0xc47d20a19d1ee},{730,0xcbbe91fac7a41},{730,0xd484ada4305ef},{730,0xd834a3375b1c7},{730,0xe5b1dd037bc2c},{730,0xe8c4575f71b8f},{730,0xf1579f3d44abd},
{731,0x3f7775dc8454},{731,0xce3850bdd6e2},{731,0x141e3921b21a7},{731,0x1d2f5e90767c9},{731,0x2b71bce47c693},{731,0x2cf1cfc3ec805},{731,0x420e4899395b4},{731,0x46b2137e90645},{731,0x505afa35f0af0},{731,0x535dd87935d72},{731,0x5a4bce41b472b},{731,0x5a9f49d2605c6},{731,0x5f6a4b5e2ca9a},{731,0x6204382f90289},{731,0x7050e9cc477c5},{731,0x776ed35c91350},{731,0x8d7f77cc4c6c1},{731,0x96fff21c6e954},{731,0x97683df2f268d},{731,0x97a2a205f591e},{731,0x9e1117ec53c81},{731,0xab678ac74da3d},{731,0xb1471c46f8737},{731,0xc24b2adc9dbee},{731,0xc47d20a19d1ee},{731,0xcc325f3828d6c},{731,0xccd62c3263be7},{731,0xd484ada4305ef},{731,0xe96f422321717},{731,0xf312e57ccf5a0},
{732,0x141e3921b21a7},{732,0x22ab4780f9934},{732,0x2b71bce47c693},{732,0x318e2e7635cea},{732,0x3eb1bc3c51357},{732,0x4027d41e912bc},{732,0x46b2137e90645},{732,0x488eff00954a2},{732,0x535dd87935d72},{732,0x5f6a4b5e2ca9a},{732,0x6d5fd36b79d63},{732,0x776ed35c91350},{732,0x78da061a536dc},{732,0x7b7dc68ee1b72},{732,0x7ffb354456641},{732,0x8d7f77cc4c6c1},{732,0x96fff21c6e954},{732,0x97683df2f268d},{732,0x97a2a205f591e},{732,0xa1d0994a5d05e},{732,0xb1471c46f8737},{732,0xb5f675cb9163e},{732,0xc24b2adc9dbee},{732,0xc47d20a19d1ee},{732,0xc94dec9a10a62},{732,0xca6b6675378aa},{732,0xcc325f3828d6c},{732,0xccd62c3263be7},{732,0xd484ada4305ef},{732,0xe69f8567fcfc4},{732,0xe96f422321717},{732,0xf0392b35bfa7d},{732,0xf312e57ccf5a0},{732,0xfd424d6faf030},
{733,0x11333237afdd9},{733,0x22ab4780f9934},{733,0x2c719fb128b5f},{733,0x34feba6b21626},{733,0x3eb1bc3c51357},{733,0x4027d41e912bc},{733,0x46b2137e90645},{733,0x488eff00954a2},{733,0x4b757b5f129cc},{733,0x4d0d0d6ec5642},{733,0x535dd87935d72},{733,0x55b679146966a},{733,0x646f0adc65c5d},{733,0x6d5fd36b79d63},{733,0x776ed35c91350},{733,0x7e8d3832b6b52},{733,0x7ffb354456641},{733,0x8d7f77cc4c6c1},{733,0x97683df2f268d},{733,0x97a2a205f591e},{733,0xa1d0994a5d05e},{733,0xb1471c46f8737},{733,0xb5f675cb9163e},{733,0xb7017c4142ee5},{733,0xb7a4aea0712c9},{733,0xc47d20a19d1ee},{733,0xc94dec9a10a62},{733,0xca6b6675378aa},{733,0xcc325f3828d6c},{733,0xd3fe83f00cc0d},{733,0xd484ada4305ef},{733,0xd58e5304cd0d9},{733,0xe03bbe2dd9c1a},{733,0xe94ec8ff42301},{733,0xe96f422321717},{733,0xf312e57ccf5a0},{733,0xf67a2d98f7abb},{733,0xf6942525f4a7a},
{734,0x12d00b48f6bc},{734,0x70842e0366cf},{734,0xd6dc4033ecf2},{734,0x11333237afdd9},{734,0x11bf345941380},{734,0x159282660b758},{734,0x235ef762314d3},{734,0x34feba6b21626},{734,0x3af2dc99b86e0},{734,0x4027d41e912bc},{734,0x424ca61605e87},{734,0x46b2137e90645},{734,0x535dd87935d72},{734,0x5be671aacdce8},{734,0x613d273f54288},{734,0x776c55cbc8699},{734,0x776ed35c91350},{734,0x7e8d3832b6b52},{734,0x7ffb354456641},{734,0x8af070ea2513b},{734,0x8c9fb653771d7},{734,0x8d7f77cc4c6c1},{734,0x97683df2f268d},{734,0x97a2a205f591e},{734,0xa1d0994a5d05e},{734,0xb1471c46f8737},{734,0xb7017c4142ee5},{734,0xc1fcd2b2a20be},{734,0xc47d20a19d1ee},{734,0xcc325f3828d6c},{734,0xcd05b9d335163},{734,0xd3fe83f00cc0d},{734,0xd484ada4305ef},{734,0xe163422f0ebf3},{734,0xe787edff61f4c},{734,0xf312e57ccf5a0},{734,0xf41e27d281282},{734,0xf6942525f4a7a},{734,0xf73e0a01eceb3},{734,0xf8ee27a8765b3},
{735,0xd6dc4033ecf2},{735,0x11bf345941380},{735,0x1f1280fdce2ef},{735,0x235ef762314d3},{735,0x323e986e235b3},{735,0x3508857060d8c},{735,0x3e497065cd61e},{735,0x424ca61605e87},{735,0x46b2137e90645},{735,0x535dd87935d72},{735,0x604dc065f8083},{735,0x6cf7a40dfdbd3},{735,0x7df1ba13c3424},{735,0x83b039fdebc52},{735,0x8af070ea2513b},{735,0x8d7f77cc4c6c1},{735,0x9031c9263576b},{735,0x97683df2f268d},{735,0xa1d0994a5d05e},{735,0xb30a93190c54f},{735,0xb7017c4142ee5},{735,0xbbf4877005278},{735,0xbe99ddcbf485a},{735,0xcc325f3828d6c},{735,0xe59e46f8fcd60},{735,0xe69f8567fcfc4},{735,0xe787edff61f4c},{735,0xfd424d6faf030},
{736,0x1022a16147ec0},{736,0x11bf345941380},{736,0x1c3612c2946de},{736,0x1f1280fdce2ef},{736,0x235ef762314d3},{736,0x3023b360fe1da},{736,0x3598d532aa5dc},{736,0x39382cbb82031},{736,0x3e497065cd61e},{736,0x4c9c1a9357e79},{736,0x604dc065f8083},{736,0x7350bc9be5fc4},{736,0x7baebda91f070},{736,0x7cc65d32d679d},{736,0x7df1ba13c3424},{736,0x7f2096c305880},{736,0x82206499e48a1},{736,0x891593c567e32},{736,0x8af070ea2513b},{736,0x9031c9263576b},{736,0x9efcf442de62f},{736,0xa1d0994a5d05e},{736,0xaa5774e3e94ac},{736,0xb30a93190c54f},{736,0xb7017c4142ee5},{736,0xbbf4877005278},{736,0xbd9a03c1b922a},{736,0xbe99ddcbf485a},{736,0xc58f0cf777deb},{736,0xc611abe77b8eb},{736,0xe59e46f8fcd60},{736,0xf8c8781d04c71},{736,0xf9aacf11b5b98},{736,0xfb1356fe04813},
{737,0x8e3150e39d97},{737,0x1022a16147ec0},{737,0x11bf345941380},{737,0x1c3612c2946de},{737,0x1e754b8ed271b},{737,0x235ef762314d3},{737,0x3023b360fe1da},{737,0x3560a89f9c022},{737,0x39382cbb82031},{737,0x39c6b0413fab6},{737,0x3e497065cd61e},{737,0x414ec8145bfb9},{737,0x4c9c1a9357e79},{737,0x5e1d953cc8521},{737,0x64b4faf0dbbce},{737,0x69de0385f1a1f},{737,0x72d783e0b763a},{737,0x760c1d6881a29},{737,0x7baebda91f070},{737,0x7c28222acf74f},{737,0x82206499e48a1},{737,0x891593c567e32},{737,0x89ac29bf822e9},{737,0x8af070ea2513b},{737,0x9031c9263576b},{737,0x9e5b5e6c4741c},{737,0xb0a682510dee8},{737,0xb2e00e1581422},{737,0xb30a93190c54f},{737,0xb7017c4142ee5},{737,0xbe99ddcbf485a},{737,0xc146e17f7b8dc},{737,0xc58f0cf777deb},{737,0xce1d7a250cf25},{737,0xd5d4431943049},{737,0xdccbf2b334edd},{737,0xe59e46f8fcd60},{737,0xf8c8781d04c71},{737,0xf9aacf11b5b98},
{738,0x8e3150e39d97},{738,0xe8d2ec38a2e5},{738,0x1022a16147ec0},{738,0x11bf345941380},{738,0x14d1eb62e99e8},{738,0x1883ff12bf063},{738,0x1e754b8ed271b},{738,0x3023b360fe1da},{738,0x36ef570c6de1d},{738,0x3845d8e63165e},{738,0x39382cbb82031},{738,0x3e497065cd61e},{738,0x414ec8145bfb9},{738,0x46b6f901301f8},{738,0x4c9c1a9357e79},{738,0x4ef693d62edff},{738,0x64b4faf0dbbce},{738,0x69de0385f1a1f},{738,0x72d783e0b763a},{738,0x760c1d6881a29},{738,0x7baebda91f070},{738,0x7c28222acf74f},{738,0x891593c567e32},{738,0x8af070ea2513b},{738,0x9900526c43651},{738,0x9e5b5e6c4741c},{738,0xb0a682510dee8},{738,0xb30a93190c54f},{738,0xbe99ddcbf485a},{738,0xc58f0cf777deb},{738,0xcb2264a505624},{738,0xd5d4431943049},{738,0xe59e46f8fcd60},{738,0xeb92aa33efe18},{738,0xefb3fec280e1a},{738,0xf76f011c2a3b1},{738,0xf9aacf11b5b98},
{739,0x6756dfde8823},{739,0x8e3150e39d97},{739,0x95419e321521},{739,0x1022a16147ec0},{739,0x10ca60d60ea8a},{739,0x14d1eb62e99e8},{739,0x1ba650f4ce6aa},{739,0x1e754b8ed271b},{739,0x1f58711244260},{739,0x3023b360fe1da},{739,0x36ef570c6de1d},{739,0x3845d8e63165e},{739,0x39382cbb82031},{739,0x3e497065cd61e},{739,0x4c9c1a9357e79},{739,0x51ba37fe720cf},{739,0x5ebb751f95b84},{739,0x6132db5527934},{739,0x69de0385f1a1f},{739,0x7b6fdb5912f5c},{739,0x7baebda91f070},{739,0x7c28222acf74f},{739,0x7f2096c305880},{739,0x891593c567e32},{739,0x8af070ea2513b},{739,0x8ea28499fa7b6},{739,0x8febd911bf7fa},{739,0x962a9ffd167ac},{739,0x985dfbade0860},{739,0x9e5b5e6c4741c},{739,0xa5f03040e2539},{739,0xb0a682510dee8},{739,0xbde4737b09a86},{739,0xc58f0cf777deb},{739,0xcb2264a505624},{739,0xcbfaf04d97ae4},{739,0xd5d4431943049},{739,0xdd6e2898b412d},{739,0xdee8bc73c6ea0},{739,0xe59e46f8fcd60},{739,0xefb3fec280e1a},{739,0xf5f8bb61e051d},{739,0xf76f011c2a3b1},
{740,0x25788f3be981},{740,0x6756dfde8823},{740,0x8e3150e39d97},{740,0x1022a16147ec0},{740,0x1ba650f4ce6aa},{740,0x2146234f51aa9},{740,0x25799582d3bbd},{740,0x2c3b16ad38abc},{740,0x31954fa55fd19},{740,0x39382cbb82031},{740,0x3e497065cd61e},{740,0x4c9c1a9357e79},{740,0x51ba37fe720cf},{740,0x5792dfa12af53},{740,0x59dada1fa22dd},{740,0x6e5554744b905},{740,0x72022c4325283},{740,0x7b6fdb5912f5c},{740,0x7c28222acf74f},{740,0x891593c567e32},{740,0x962a9ffd167ac},{740,0x9994cf360931a},{740,0x9e5b5e6c4741c},{740,0xa36891271234a},{740,0xb0a682510dee8},{740,0xb7457ae60bcb7},{740,0xbde239ad12ac1},{740,0xbde4737b09a86},{740,0xc58f0cf777deb},{740,0xcb2264a505624},{740,0xd5d4431943049},{740,0xd86055cf011c2},{740,0xe523dd37638e5},{740,0xe59e46f8fcd60},{740,0xefb3fec280e1a},{740,0xf5f8bb61e051d},
{741,0x28e126f9f6fd},{741,0x8e3150e39d97},{741,0x1022a16147ec0},{741,0x1ba650f4ce6aa},{741,0x2146234f51aa9},{741,0x25799582d3bbd},{741,0x2c3b16ad38abc},{741,0x2d3f280569d6d},{741,0x39382cbb82031},{741,0x3e497065cd61e},{741,0x3f3fd58f47068},{741,0x4c9c1a9357e79},{741,0x51ba37fe720cf},{741,0x522e076c2a380},{741,0x6007c6395ecea},{741,0x6e5554744b905},{741,0x6e70cc7f234d2},{741,0x7b6fdb5912f5c},{741,0x7c28222acf74f},{741,0x891593c567e32},{741,0x9994cf360931a},{741,0x9bc89c9d4e837},{741,0x9d04dc9283bdb},{741,0x9e5b5e6c4741c},{741,0xaa0789bc10119},{741,0xb0a682510dee8},{741,0xb7457ae60bcb7},{741,0xb9106ec657e36},{741,0xbde239ad12ac1},{741,0xbde4737b09a86},{741,0xc3f69523d5028},{741,0xc4836c1007855},{741,0xc58f0cf777deb},{741,0xc9db3e632ad85},{741,0xcb2264a505624},{741,0xd1c15d3a033f3},{741,0xd88c0e56a6952},{741,0xe0c1c64bb19dd},{741,0xef557d51a139f},{741,0xf2dc3822f88fe},{741,0xf451a442867bb},{741,0xf5f8bb61e051d},
{742,0x8e3150e39d97},{742,0x1022a16147ec0},{742,0x1ba650f4ce6aa},{742,0x27a84db407009},{742,0x2a64d95f708bc},{742,0x2e347647a0ced},{742,0x3e497065cd61e},{742,0x483bbbe8fbccf},{742,0x4c9c1a9357e79},{742,0x4d55f1962dfc7},{742,0x51ba37fe720cf},{742,0x6007c6395ecea},{742,0x672e8d56d52f8},{742,0x6e70cc7f234d2},{742,0x891593c567e32},{742,0x8ddbcc7f40ba6},{742,0x8f8ba768189dd},{742,0x993dff2511d56},{742,0x9994cf360931a},{742,0x9d04dc9283bdb},{742,0x9e5b5e6c4741c},{742,0xa7163f311454c},{742,0xb0a682510dee8},{742,0xb0abd4ca63311},{742,0xb5394b4a3f99b},{742,0xb7457ae60bcb7},{742,0xb9106ec657e36},{742,0xbde4737b09a86},{742,0xc4836c1007855},{742,0xc58f0cf777deb},{742,0xd1c15d3a033f3},{742,0xd2bca30915b3c},{742,0xd7c1f55650892},{742,0xd88c0e56a6952},{742,0xda7245248c8c5},{742,0xdee8bc73c6ea0},{742,0xf152bf9f10e8f},{742,0xf2dc3822f88fe},{742,0xf5f8bb61e051d},
{743,0x4e8b39246978},{743,0xa3670d7d2448},{743,0x1022a16147ec0},{743,0x1ba650f4ce6aa},{743,0x27a84db407009},{743,0x2a64d95f708bc},{743,0x2ad39ce9e1cc1},{743,0x2b5175c85c524},{743,0x2e347647a0ced},{743,0x471ebd735ab2f},{743,0x4c9c1a9357e79},{743,0x51ba37fe720cf},{743,0x5c2052ef58a31},{743,0x674d161bf1c7a},{743,0x6e70cc7f234d2},{743,0x891593c567e32},{743,0x8f8ba768189dd},{743,0x9be4ddc7d7abe},{743,0x9e5b5e6c4741c},{743,0xa7163f311454c},{743,0xb0a682510dee8},{743,0xb0abd4ca63311},{743,0xb7457ae60bcb7},{743,0xb9106ec657e36},{743,0xbb1d70e0ed87e},{743,0xbde4737b09a86},{743,0xc58f0cf777deb},{743,0xc8ce3e8e7f3c4},{743,0xd000a90e02358},{743,0xd1c15d3a033f3},{743,0xd2bca30915b3c},{743,0xd7c1f55650892},{743,0xe60f83913d4ad},{743,0xf2dc3822f88fe},{743,0xf5f8bb61e051d},
{744,0xa3670d7d2448},{744,0x1022a16147ec0},{744,0x234add51a0771},{744,0x27a84db407009},{744,0x29268fef0abe6},{744,0x2ad39ce9e1cc1},{744,0x2e347647a0ced},{744,0x33982c0595153},{744,0x4a47fb3f28943},{744,0x4c9c1a9357e79},{744,0x674d161bf1c7a},{744,0x6a5b5fdd93270},{744,0x6e70cc7f234d2},{744,0x891593c567e32},{744,0x9be4ddc7d7abe},{744,0x9c2ca63b13fd0},{744,0x9d440253ad9f6},{744,0x9e8bbc6a9d826},{744,0xa6b9894734c60},{744,0xb0a682510dee8},{744,0xb0abd4ca63311},{744,0xb9106ec657e36},{744,0xbde4737b09a86},{744,0xc0ef56aa6b8fd},{744,0xc58f0cf777deb},{744,0xd1c15d3a033f3},{744,0xe4e3e13b16e32},{744,0xe60f83913d4ad},
{745,0x63c22e3a982c},{745,0x13c93b6bb6f89},{745,0x24bb23338ca58},{745,0x27a84db407009},{745,0x28bfa9cca0a2f},{745,0x29268fef0abe6},{745,0x2b5175c85c524},{745,0x2c9a0b17a051f},{745,0x2e347647a0ced},{745,0x335d1b2929952},{745,0x50e6f3d426712},{745,0x546116a137e37},{745,0x6e70cc7f234d2},{745,0x74fe0fb74caeb},{745,0x91b5e751f5853},{745,0x9b546fe3a43c5},{745,0x9be4ddc7d7abe},{745,0x9c2ca63b13fd0},{745,0x9dcfb05ffa709},{745,0x9e8bbc6a9d826},{745,0xa6b9894734c60},{745,0xb0a682510dee8},{745,0xb0abd4ca63311},{745,0xb9106ec657e36},{745,0xc0ef56aa6b8fd},{745,0xc0fa30ac8a7b6},{745,0xc58f0cf777deb},{745,0xe06af63aba419},{745,0xe4e3e13b16e32},{745,0xe8b6623403215},{745,0xf152bf9f10e8f},
{746,0x28bfa9cca0a2f},{746,0x29268fef0abe6},{746,0x2b5175c85c524},{746,0x2c9a0b17a051f},{746,0x2e347647a0ced},{746,0x2f0cac9f108f8},{746,0x50e6f3d426712},{746,0x51108055c0975},{746,0x5edaf6b19440c},{746,0x62bbff0a00b89},{746,0x7625d33a7366d},{746,0x80c6bb129a2fd},{746,0x8705389510d0c},{746,0x91b5e751f5853},{746,0x9b546fe3a43c5},{746,0x9be4ddc7d7abe},{746,0x9c2ca63b13fd0},{746,0x9dcfb05ffa709},{746,0x9ee70c789412f},{746,0xb32867ab2ecbd},{746,0xb9106ec657e36},{746,0xc58f0cf777deb},{746,0xc5ceb54125d49},{746,0xd394d96085747},{746,0xd7cde915b437e},{746,0xd8e361b5f4289},{746,0xe4e3e13b16e32},{746,0xe6b93b39eec07},{746,0xea0cc533f0911},{746,0xf152bf9f10e8f},
{747,0x3954440e3ac4},{747,0x6e5da8c5af86},{747,0x12ec77e09ff37},{747,0x29268fef0abe6},{747,0x2c9a0b17a051f},{747,0x4dbfea0a494b3},{747,0x50e6f3d426712},{747,0x51108055c0975},{747,0x52cd2c245d1eb},{747,0x5815e4420dc79},{747,0x6758fb41018ce},{747,0x6ed49e32d0a89},{747,0x765041249fc43},{747,0x7dcbe4166edfe},{747,0x80c6bb129a2fd},{747,0x854787083dfb8},{747,0x8cc329fa0d173},{747,0x91b5e751f5853},{747,0x97ea8fd3aeea2},{747,0x9b3b261f26364},{747,0x9b546fe3a43c5},{747,0x9c2ca63b13fd0},{747,0xb774a4a214d86},{747,0xb9106ec657e36},{747,0xbb59890af74c9},{747,0xc58f0cf777deb},{747,0xd7cde915b437e},{747,0xd8e361b5f4289},{747,0xd923d364c2763},{747,0xe215359d14891},{747,0xe4e3e13b16e32},{747,0xea0cc533f0911},{747,0xf66d3a60f1049},{747,0xf6d1c38c4ab87},
{748,0x3954440e3ac4},{748,0x12ec77e09ff37},{748,0x2b7be3b288afa},{748,0x2c9a0b17a051f},{748,0x377ecc096e166},{748,0x4b2ce15d812b9},{748,0x4dbfea0a494b3},{748,0x50e6126b9439f},{748,0x50e6f3d426712},{748,0x51108055c0975},{748,0x584969fee5a82},{748,0x5f27f934caeb9},{748,0x6ed49e32d0a89},{748,0x765041249fc43},{748,0x7dcbe4166edfe},{748,0x91b5e751f5853},{748,0x97ea8fd3aeea2},{748,0x9b546fe3a43c5},{748,0x9bba6fddab4e8},{748,0x9c2ca63b13fd0},{748,0xacf5473bae530},{748,0xb35030d93b858},{748,0xb774a4a214d86},{748,0xb9106ec657e36},{748,0xc1249e96b6d8c},{748,0xd7cde915b437e},{748,0xd9fabdce8dcaf},{748,0xe215359d14891},{748,0xe4e3e13b16e32},{748,0xe70e170e477b4},{748,0xebeb9d2ecd995},{748,0xf66d3a60f1049},
{749,0x611b4f97d256},{749,0x87b6ae423b10},{749,0x130113ccf5640},{749,0x135314090b052},{749,0x2c9a0b17a051f},{749,0x377ecc096e166},{749,0x45e10226359ec},{749,0x464982779d7ef},{749,0x50e6126b9439f},{749,0x50e6f3d426712},{749,0x51108055c0975},{749,0x52bf915ed63ee},{749,0x54982ee9860ca},{749,0x5f27f934caeb9},{749,0x6d38c4b8d06b1},{749,0x6e3b60642321f},{749,0x7340a8a092b3f},{749,0x7625d33a7366d},{749,0x765041249fc43},{749,0x8488a5b445360},{749,0x87a65a8f91272},{749,0x8c4df0b2c179a},{749,0x91b5e751f5853},{749,0x9b546fe3a43c5},{749,0x9bba6fddab4e8},{749,0x9c2ca63b13fd0},{749,0xab631cacb2883},{749,0xacf5473bae530},{749,0xb35030d93b858},{749,0xbed0c240618f4},{749,0xc1249e96b6d8c},{749,0xca7848a6a396c},{749,0xd23d93a51fda6},{749,0xd7cde915b437e},{749,0xd9fabdce8dcaf},{749,0xe79ebd020e38a},{749,0xf2a825166905b},
{750,0x611b4f97d256},{750,0xf61a52d34f09},{750,0xff940cafd3f6},{750,0x135314090b052},{750,0x2c9a0b17a051f},{750,0x34cbd3e6407ae},{750,0x3e1bc419f8461},{750,0x45e10226359ec},{750,0x50e6f3d426712},{750,0x52bf915ed63ee},{750,0x560961c6f3898},{750,0x7340a8a092b3f},{750,0x765041249fc43},{750,0x76f9f8cd5139d},{750,0x874a8c421b782},{750,0x891a8f763bb81},{750,0x8c4df0b2c179a},{750,0x8fa1181704abd},{750,0x91b5e751f5853},{750,0xab631cacb2883},{750,0xc1249e96b6d8c},{750,0xd7cde915b437e},{750,0xda10222a1a5d1},{750,0xdd3edd1c0a97d},{750,0xf2a825166905b},{750,0xffe1b058c5c04},
{751,0x611b4f97d256},{751,0xf61a52d34f09},{751,0x135314090b052},{751,0x18324ba267a39},{751,0x2c9a0b17a051f},{751,0x3ca7b00247c45},{751,0x3e1bc419f8461},{751,0x42d8f328ea5a6},{751,0x51d342997e580},{751,0x52bf915ed63ee},{751,0x560961c6f3898},{751,0x765041249fc43},{751,0x7fa03158578f7},{751,0x874a8c421b782},{751,0x91b5e751f5853},{751,0xa9c78f20552e0},{751,0xab631cacb2883},{751,0xc1249e96b6d8c},{751,0xc938ce6715ce2},{751,0xdd3edd1c0a97d},{751,0xe774be6da0ca4},{751,0xfb095d5d2c3d8},{751,0xffb3c9320ae8c},
{752,0x15485ea8b111},{752,0x549f9ad12626},{752,0x135314090b052},{752,0x23667c4733e88},{752,0x3bf710364a402},{752,0x42d8f328ea5a6},{752,0x47962237dc6eb},{752,0x524969fc2a4b7},{752,0x52bf915ed63ee},{752,0x6911eb24b64a3},{752,0x6b35d14d5991f},{752,0x6cab751c8f3e3},{752,0x7740576557ea0},{752,0x845d606749a3c},{752,0x8488a5b445360},{752,0x878ce846a5b67},{752,0x8b3c699629fd2},{752,0x8b97002ed5312},{752,0x964f27a734aa5},{752,0xab631cacb2883},{752,0xc1249e96b6d8c},{752,0xc5e1cda5a8ed1},{752,0xc938ce6715ce2},{752,0xdbf431633b2ef},{752,0xe5aacf2156838},{752,0xf6b23cfe98806},{752,0xfbc6bc844067c},{752,0xffb3c9320ae8c},
{753,0x15485ea8b111},{753,0xacee4086f39b},{753,0x135314090b052},{753,0x370c0a289afba},{753,0x3bf710364a402},{753,0x42d8f328ea5a6},{753,0x47962237dc6eb},{753,0x4b15edca23bfd},{753,0x5a1379af23043},{753,0x5f2b4b355b39e},{753,0x6911eb24b64a3},{753,0x8029ab851f4ff},{753,0x81fec8dfd0999},{753,0x845d606749a3c},{753,0x878ce846a5b67},{753,0x9b5fe9ad52f23},{753,0xa65dcf62c604f},{753,0xab631cacb2883},{753,0xb78761da54b1e},{753,0xc1249e96b6d8c},{753,0xc347a1018e5e5},{753,0xc383361e2fe2f},{753,0xc3aba707f6db9},{753,0xdbeb6dcaa7ac9},{753,0xe5aacf2156838},{753,0xf6b23cfe98806},{753,0xfbc6bc844067c},{753,0xfdebdcc6240dd},{753,0xffb3c9320ae8c},
{754,0x92a14fdbb366},{754,0xee70c3703627},{754,0x1867938eb2ec8},{754,0x270af76e7e283},{754,0x2fe436ed22092},{754,0x370c0a289afba},{754,0x42d8f328ea5a6},{754,0x47962237dc6eb},{754,0x5ead0f8ad9694},{754,0x5f2b4b355b39e},{754,0x626bde045d7a0},{754,0x70d030fae45d5},{754,0x8029ab851f4ff},{754,0x845d606749a3c},{754,0x878ce846a5b67},{754,0x9bdee65d4553f},{754,0xa3f04b42bcc35},{754,0xb78761da54b1e},{754,0xc1249e96b6d8c},{754,0xc2de81b2853e3},{754,0xc347a1018e5e5},{754,0xc383361e2fe2f},{754,0xc3aba707f6db9},{754,0xd79488254aaa8},{754,0xf6b23cfe98806},{754,0xfbc6bc844067c},
{755,0xee70c3703627},{755,0x1867938eb2ec8},{755,0x19ca4e7978420},{755,0x1a4075dc24357},{755,0x2346084d773ad},{755,0x270af76e7e283},{755,0x2fe436ed22092},{755,0x3644efec27407},{755,0x539a5179cebc1},{755,0x5ead0f8ad9694},{755,0x600d467ce46fd},{755,0x6571d55503b0c},{755,0x6c401b5900e2a},{755,0x6ec40b6ed949e},{755,0x78846ac1ec70f},{755,0x827868c0fdcf1},{755,0x845d606749a3c},{755,0x878ce846a5b67},{755,0xa567b9f08301c},{755,0xb78761da54b1e},{755,0xc1249e96b6d8c},{755,0xc2de81b2853e3},{755,0xd79488254aaa8},{755,0xe574b8811c0cb},{755,0xe5aacf2156838},{755,0xf5abf8eedad93},{755,0xf6b23cfe98806},{755,0xfbc6bc844067c},
{756,0x10c34a68d5de4},{756,0x15dd53cbdef8d},{756,0x18eedc7a33720},{756,0x1a4075dc24357},{756,0x2346084d773ad},{756,0x270af76e7e283},{756,0x4eb51e094257a},{756,0x53d1b45a606f4},{756,0x543450d7873d1},{756,0x69331b788b497},{756,0x734665856a0ee},{756,0x78846ac1ec70f},{756,0x82498292ef1dd},{756,0x827868c0fdcf1},{756,0x845d606749a3c},{756,0x87504926f2d31},{756,0x878ce846a5b67},{756,0x9b5a2cc87b974},{756,0x9cd484ac51a4e},{756,0xa74326f18b535},{756,0xa8f5753d2bb31},{756,0xb4e90c7432d83},{756,0xb54563f98cd8d},{756,0xb78761da54b1e},{756,0xc1249e96b6d8c},{756,0xe574b8811c0cb},{756,0xe5aacf2156838},{756,0xf5abf8eedad93},{756,0xf6b23cfe98806},{756,0xfbc6bc844067c},
{757,0x10c34a68d5de4},{757,0x15dd53cbdef8d},{757,0x170a762af33a4},{757,0x270af76e7e283},{757,0x2f43d168267db},{757,0x46d0e93d8ed32},{757,0x4b329e4258868},{757,0x69370a0d98583},{757,0x755b4f3b3a81e},{757,0x75c529f2da0ca},{757,0x817f9468dcab9},{757,0x87504926f2d31},{757,0x8a7b29788ba40},{757,0x8f711d12593af},{757,0x9671588ac799e},{757,0x9b5a2cc87b974},{757,0x9cd484ac51a4e},{757,0xa2b3ad83ed6c0},{757,0xa74326f18b535},{757,0xaf64106a045b7},{757,0xbb06d58574d88},{757,0xc1249e96b6d8c},{757,0xc885f14e16e5b},{757,0xd81150e723a2c},{757,0xe574b8811c0cb},{757,0xe9d364438703b},{757,0xeb9281925e0cf},{757,0xedc47f7c3ee24},{757,0xf6b23cfe98806},{757,0xfbc6bc844067c},
{758,0x39d8a4ed2659},{758,0xe0f16cfa3a0b},{758,0x205d6afbcb5e1},{758,0x270af76e7e283},{758,0x27fd73516736d},{758,0x3d4ec57cc8434},{758,0x3e9ac2dc8cd53},{758,0x46d0e93d8ed32},{758,0x48984764f9402},{758,0x4b329e4258868},{758,0x59ef7d6ba26f9},{758,0x5d12c4dff62e8},{758,0x604ba7042bd0f},{758,0x60c1ce66d7c46},{758,0x6137f5c983b7d},{758,0x69370a0d98583},{758,0x6f266ee97609a},{758,0x722780d35a4c0},{758,0x755b4f3b3a81e},{758,0x770000aabe20f},{758,0x7e3f975607a37},{758,0x87504926f2d31},{758,0x99c81ec420fef},{758,0x9fb21af65f3e2},{758,0xa6fc5d328e25e},{758,0xaf64106a045b7},{758,0xb0b13bd8b3fea},{758,0xb8c5f33b8d3a3},{758,0xc1249e96b6d8c},{758,0xe574b8811c0cb},{758,0xf6b23cfe98806},{758,0xfbc6bc844067c},
{759,0x39d8a4ed2659},{759,0x167ff2c6b79c3},{759,0x270af76e7e283},{759,0x27fd73516736d},{759,0x2f8ac174d6123},{759,0x3104190926ae6},{759,0x3d4ec57cc8434},{759,0x4175659e18152},{759,0x48984764f9402},{759,0x50113a9478bf3},{759,0x56215f494941f},{759,0x59ef7d6ba26f9},{759,0x5d12c4dff62e8},{759,0x5e7309797c033},{759,0x60c1ce66d7c46},{759,0x6310935433859},{759,0x72449ab0d9ab4},{759,0x8020a7069ecc2},{759,0x99c81ec420fef},{759,0x9eb6dadeaadfe},{759,0x9fb21af65f3e2},{759,0xaf64106a045b7},{759,0xb0b13bd8b3fea},{759,0xb18c3003fb40a},{759,0xb8c5f33b8d3a3},{759,0xb921490e44ccd},{759,0xbb6972029ba64},{759,0xccb2f54142f63},{759,0xdfb98bed00da3},{759,0xe574b8811c0cb},{759,0xfbc6bc844067c},{759,0xff474bc640c92},
{760,0x1028bddc044fc},{760,0x142cdfe0e5a10},{760,0x2b2db8986fcb3},{760,0x3104190926ae6},{760,0x387cf9cb4ad4e},{760,0x52e930d6b13d4},{760,0x557c19a370d47},{760,0x56215f494941f},{760,0x59ef7d6ba26f9},{760,0x5ccd13b5b008d},{760,0x5d12c4dff62e8},{760,0x5e7309797c033},{760,0x60c1ce66d7c46},{760,0x69fce21c46c92},{760,0x7ca4c19ed69f6},{760,0x7cd0cc3100d6d},{760,0x96656ac6b38b1},{760,0x9eb6dadeaadfe},{760,0x9fb21af65f3e2},{760,0xa15eca00a6590},{760,0xa2d99c089c82e},{760,0xb0b13bd8b3fea},{760,0xb8c5f33b8d3a3},{760,0xbb6972029ba64},{760,0xbbee215479143},{760,0xc29369bbbda56},{760,0xccb2f54142f63},
{761,0x847822f765b2},{761,0x142cdfe0e5a10},{761,0x14e4457369075},{761,0x1ad8944d4c67d},{761,0x1fd3d4ceb9d6d},{761,0x291c580376f9b},{761,0x2b2db8986fcb3},{761,0x304ba6ee50eb7},{761,0x3484a84b270fc},{761,0x37c59438c76e9},{761,0x387cf9cb4ad4e},{761,0x4bffc397ca23e},{761,0x5364a17e005d8},{761,0x56215f494941f},{761,0x5e7309797c033},{761,0x60c1ce66d7c46},{761,0x69fce21c46c92},{761,0x7cd0cc3100d6d},{761,0x916a2a45461c1},{761,0x96656ac6b38b1},{761,0x96aafebbc54f0},{761,0x9e434fd158718},{761,0x9eb6dadeaadfe},{761,0x9fb21af65f3e2},{761,0xa0c83b73a3b16},{761,0xa3ae1d4a3ca6d},{761,0xb0b13bd8b3fea},{761,0xb8c5f33b8d3a3},{761,0xb93c1a9e392da},{761,0xbb6972029ba64},{761,0xc29369bbbda56},{761,0xcce9009d2e76d},{761,0xe4bd52ee98a66},{761,0xe4bdb612915de},
{762,0x847822f765b2},{762,0x142cdfe0e5a10},{762,0x1ad8944d4c67d},{762,0x2a25084df3627},{762,0x2b2db8986fcb3},{762,0x3484a84b270fc},{762,0x387cf9cb4ad4e},{762,0x4bffc397ca23e},{762,0x5489443be0293},{762,0x56215f494941f},{762,0x5e7309797c033},{762,0x60c1ce66d7c46},{762,0x629e8481e7efc},{762,0x69fce21c46c92},{762,0x73c5c4c747af0},{762,0x79f335e6f33d9},{762,0x7d8831c3843d2},{762,0x8cfef48288790},{762,0x96aafebbc54f0},{762,0x9eb6dadeaadfe},{762,0xa0c83b73a3b16},{762,0xa3ae1d4a3ca6d},{762,0xaadb200c4d099},{762,0xb364a0b0630ee},{762,0xb8c5f33b8d3a3},{762,0xbb6972029ba64},{762,0xc29369bbbda56},{762,0xe4bdb612915de},{762,0xee0d7b5f44d87},{762,0xf3b666c7f1c77},
{763,0x847822f765b2},{763,0x120e26c5f1613},{763,0x17c1dbbd76a09},{763,0x19f4989e91a88},{763,0x1ad8944d4c67d},{763,0x1e66153d4eb57},{763,0x20d6d5af93b3b},{763,0x29e2dc3b54484},{763,0x2b2db8986fcb3},{763,0x3484a84b270fc},{763,0x387cf9cb4ad4e},{763,0x41b791b0b72f5},{763,0x4aa33b58ff6a1},{763,0x4bffc397ca23e},{763,0x56215f494941f},{763,0x593817d91f094},{763,0x598c47261a166},{763,0x5b1c9fcab6b0f},{763,0x60c1ce66d7c46},{763,0x629e8481e7efc},{763,0x69fce21c46c92},{763,0x79f335e6f33d9},{763,0x9eb6dadeaadfe},{763,0xa14c9398e1e5c},{763,0xa3ae1d4a3ca6d},{763,0xaadb200c4d099},{763,0xb364a0b0630ee},{763,0xb8c5f33b8d3a3},{763,0xc29369bbbda56},{763,0xcbb2420917372},{763,0xe4bdb612915de},{763,0xe51905b7da598},{763,0xe57940b9e9e24},
{764,0x847822f765b2},{764,0xcf17a101a50b},{764,0x120e26c5f1613},{764,0x20d6d5af93b3b},{764,0x218eebb99338b},{764,0x29e2dc3b54484},{764,0x3484a84b270fc},{764,0x387cf9cb4ad4e},{764,0x39223225de922},{764,0x3963a12ef61fc},{764,0x4aa33b58ff6a1},{764,0x4bffc397ca23e},{764,0x584fcbad2b7bc},{764,0x593817d91f094},{764,0x5b1c9fcab6b0f},{764,0x69fce21c46c92},{764,0x76e06174b01eb},{764,0x998b696a3cd42},{764,0xa10a678642cb9},{764,0xa14c9398e1e5c},{764,0xa3ae1d4a3ca6d},{764,0xaadb200c4d099},{764,0xb8c5f33b8d3a3},{764,0xc45de7aa06253},{764,0xcd525d5170a41},{764,0xe51905b7da598},{764,0xe57940b9e9e24},{764,0xef529b40aed24},{764,0xf65bd3b5e8b39},
{765,0x2ea11e2d746f},{765,0x847822f765b2},{765,0xcf17a101a50b},{765,0x20b4da2aaa76a},{765,0x218eebb99338b},{765,0x29e2dc3b54484},{765,0x2c47f6124b6c5},{765,0x2dc37152a6d11},{765,0x3484a84b270fc},{765,0x387cf9cb4ad4e},{765,0x39223225de922},{765,0x3963a12ef61fc},{765,0x4bffc397ca23e},{765,0x584fcbad2b7bc},{765,0x593817d91f094},{765,0x5b1c9fcab6b0f},{765,0x63b69ab4eadd5},{765,0x7286f4a6ec534},{765,0x76e06174b01eb},{765,0x82e7ab8e5dbc8},{765,0x89f1498321f59},{765,0x8ecaffc192973},{765,0xa10a678642cb9},{765,0xa14c9398e1e5c},{765,0xa3ae1d4a3ca6d},{765,0xa678050d4ff18},{765,0xaadb200c4d099},{765,0xb84b8ef3b58ed},{765,0xb8c5f33b8d3a3},{765,0xc2dbb6d189907},{765,0xcd3dd7f68949a},{765,0xcd525d5170a41},{765,0xdc2490106fdaa},{765,0xdf5deabb1cdb6},{765,0xe51905b7da598},{765,0xe79a9cf3f87ed},{765,0xef0c6ee74dd1e},
{766,0x847822f765b2},{766,0x147e2e2d1068e},{766,0x20b4da2aaa76a},{766,0x274d23811d426},{766,0x286d80ec190dc},{766,0x29e2dc3b54484},{766,0x2c47f6124b6c5},{766,0x2dc37152a6d11},{766,0x387cf9cb4ad4e},{766,0x39223225de922},{766,0x43b24aee810ea},{766,0x4bffc397ca23e},{766,0x584fcbad2b7bc},{766,0x5b1c9fcab6b0f},{766,0x6597b7ea1b170},{766,0x7286f4a6ec534},{766,0x741578cf5e85f},{766,0x76e06174b01eb},{766,0x82e7ab8e5dbc8},{766,0x89f1498321f59},{766,0x8c9ecdc729b6c},{766,0x8ecaffc192973},{766,0x91b9de4d5cf30},{766,0xa001b73bc662d},{766,0xa10a678642cb9},{766,0xa14c9398e1e5c},{766,0xa15b9e5f5797e},{766,0xa3ae1d4a3ca6d},{766,0xaadb200c4d099},{766,0xaf5e43cb5b601},{766,0xaf861dcf66cb9},{766,0xb0ecc7f3cd92c},{766,0xb344ea0de31ba},{766,0xb9f202bcb6786},{766,0xdf5deabb1cdb6},{766,0xe51905b7da598},{766,0xef0c6ee74dd1e},{766,0xf9f0cf9279b32},
{767,0x22c2c30a9544},{767,0x7ca1da5bc16b},{767,0x82004597f1d5},{767,0x847822f765b2},{767,0xb552d2edcde9},{767,0xc086e63f0e0e},{767,0xe62d82e43620},{767,0x147e2e2d1068e},{767,0x14dda13615ca0},{767,0x29e2dc3b54484},{767,0x2dc37152a6d11},{767,0x33470754a2fe8},{767,0x387cf9cb4ad4e},{767,0x39223225de922},{767,0x47bd4a12b7afa},{767,0x4bffc397ca23e},{767,0x4ecc32ebcf5c7},{767,0x53286f42cd41c},{767,0x551887e1417cb},{767,0x584fcbad2b7bc},{767,0x5b1c9fcab6b0f},{767,0x5e6e0a4fc6dfa},{767,0x6597b7ea1b170},{767,0x66e294473699f},{767,0x6ced3d56a463c},{767,0x7286f4a6ec534},{767,0x73d2b675499b4},{767,0x741578cf5e85f},{767,0x76338e19e0d6e},{767,0x84c1f2cc074ad},{767,0x89f1498321f59},{767,0x91b9de4d5cf30},{767,0x9936e4aee2440},{767,0x9e86c0dfde6cd},{767,0xa001b73bc662d},{767,0xa3ae1d4a3ca6d},{767,0xaadb200c4d099},{767,0xacee52ded9803},{767,0xaf861dcf66cb9},{767,0xaff79e71f47f4},{767,0xbca441622594a},{767,0xdf5deabb1cdb6},{767,0xe51905b7da598},{767,0xe9e5127cef97e},{767,0xf7ed5b2af7643},{767,0xff04f1d02e212},
{768,0x539d7300fd7b},{768,0x7ca1da5bc16b},{768,0x82004597f1d5},{768,0x847822f765b2},{768,0xb552d2edcde9},{768,0xba7a2f582c23},{768,0xe62d82e43620},{768,0x14dda13615ca0},{768,0x1a99842bdd6fc},{768,0x1af5a54fa2949},{768,0x29e2dc3b54484},{768,0x2dc37152a6d11},{768,0x33470754a2fe8},{768,0x387cf9cb4ad4e},{768,0x38d0132705fbf},{768,0x39223225de922},{768,0x47bd4a12b7afa},{768,0x6ced3d56a463c},{768,0x7286f4a6ec534},{768,0x7288e1271f513},{768,0x837225c17e7e6},{768,0x84c1f2cc074ad},{768,0x89f1498321f59},{768,0x91b9de4d5cf30},{768,0xa1c38803d09c9},{768,0xa9985098333b5},{768,0xaf861dcf66cb9},{768,0xccea8afef47dc},{768,0xdf5deabb1cdb6},{768,0xdfe3134132832},{768,0xe414c8a192e71},{768,0xf0564601e5606},{768,0xf273c930f4622},{768,0xf7ed5b2af7643},{768,0xff04f1d02e212},
{769,0x82004597f1d5},{769,0x847822f765b2},{769,0xb552d2edcde9},{769,0xd1d57aa9d219},{769,0xe7d85a43d42f},{769,0x14ac84afa7a7b},{769,0x1a99842bdd6fc},{769,0x204e7f1264f92},{769,0x222dc0aac64d6},{769,0x24b124c09e6ce},{769,0x286d80ec190dc},{769,0x29dddb28de00f},{769,0x29e2dc3b54484},{769,0x2fd6a4253347b},{769,0x38d0132705fbf},{769,0x528ab61c9204f},{769,0x57aae01fdfb48},{769,0x5999a2c7c30a4},{769,0x6ced3d56a463c},{769,0x6d58e218c028a},{769,0x7286f4a6ec534},{769,0x7288e1271f513},{769,0x82e7ab8e5dbc8},{769,0x837225c17e7e6},{769,0x89f1498321f59},{769,0x91b9de4d5cf30},{769,0xa4f7f464d4355},{769,0xa9985098333b5},{769,0xb344a10029741},{769,0xbc9148b60e474},{769,0xbca441622594a},{769,0xc0863cc705e2a},{769,0xcc343e8d430e5},{769,0xce14385bf700d},{769,0xdf5deabb1cdb6},{769,0xdfe3134132832},{769,0xf0564601e5606},{769,0xf71b300ae9cfb},{769,0xf8118dfa185ee},{769,0xfc26b97c279ed},
{770,0x82004597f1d5},{770,0xb02b76836faf},{770,0xb552d2edcde9},{770,0xe7d85a43d42f},{770,0x14ac84afa7a7b},{770,0x24b124c09e6ce},{770,0x286d80ec190dc},{770,0x29e2dc3b54484},{770,0x2fd6a4253347b},{770,0x38d0132705fbf},{770,0x43b8835d92ce6},{770,0x555fa4a14de06},{770,0x57aae01fdfb48},{770,0x6ced3d56a463c},{770,0x6d58e218c028a},{770,0x7288e1271f513},{770,0x8018c929cbbe2},{770,0x820787bddda42},{770,0x837225c17e7e6},{770,0x89f1498321f59},{770,0x903c590671ad0},{770,0x91b9de4d5cf30},{770,0x984743e2b199e},{770,0x998698b6f91af},{770,0xa4009310e28a7},{770,0xa4f7f464d4355},{770,0xbca441622594a},{770,0xc0863cc705e2a},{770,0xc28f9813ead95},{770,0xcc343e8d430e5},{770,0xf0564601e5606},{770,0xf4d760e866edf},{770,0xf8118dfa185ee},{770,0xfc26b97c279ed},
{771,0x6273e03ffc1c},{771,0x82004597f1d5},{771,0xb02b76836faf},{771,0xb552d2edcde9},{771,0xe7d85a43d42f},{771,0x1f2a14e4b8455},{771,0x21c6d296edacf},{771,0x341cfbbaa9e94},{771,0x38d0132705fbf},{771,0x4c41ed9af4041},{771,0x5033a41e185ba},{771,0x535c563f3e088},{771,0x57aae01fdfb48},{771,0x57fd55e685982},{771,0x6ab930d577e0b},{771,0x6ced3d56a463c},{771,0x6d58e218c028a},{771,0x7288e1271f513},{771,0x7dafd59d786aa},{771,0x8018c929cbbe2},{771,0x820787bddda42},{771,0x8d2eae070b299},{771,0x91b9de4d5cf30},{771,0x998698b6f91af},{771,0xa4f7f464d4355},{771,0xbca441622594a},{771,0xc0863cc705e2a},{771,0xc28f9813ead95},{771,0xc82c68ee64fc6},{771,0xd129197288d28},{771,0xd48a862d808f8},{771,0xdfbb393d2717a},{771,0xed1dac3f6a7c2},{771,0xf0564601e5606},{771,0xf07f80e538523},{771,0xfd38ad0bd0f16},
{772,0x55121f4ed1ef},{772,0x6273e03ffc1c},{772,0x7a833f366c84},{772,0xb552d2edcde9},{772,0xc9f0449746d1},{772,0xe7d85a43d42f},{772,0x15e6a8dd577ce},{772,0x1cb7d5e5adbc1},{772,0x1f2a14e4b8455},{772,0x1fd6aeac4ca41},{772,0x2bcb8d64e8715},{772,0x38052965327fd},{772,0x38d0132705fbf},{772,0x4c41ed9af4041},{772,0x5033a41e185ba},{772,0x535c563f3e088},{772,0x53c958ec66597},{772,0x68621ed6fe376},{772,0x6ab1eefe8dd65},{772,0x6ab930d577e0b},{772,0x6ced3d56a463c},{772,0x7288e1271f513},{772,0x7a519c40d7e5f},{772,0x7dafd59d786aa},{772,0x7dea570a0a986},{772,0x7e3987916a69e},{772,0x8090998fe4133},{772,0x8d2eae070b299},{772,0xa429cdf4357c4},{772,0xa4f7f464d4355},{772,0xb0b2b93c7d3fc},{772,0xb512f5313aaa9},{772,0xc0863cc705e2a},{772,0xc28f9813ead95},{772,0xce1b6e73224f1},{772,0xcf2b1970e7258},{772,0xdfbb393d2717a},{772,0xe3a19671f52ba},{772,0xec7614c4fcea8},{772,0xf0564601e5606},{772,0xf07f80e538523},{772,0xf721ed2de7b4c},{772,0xfd38ad0bd0f16},
{773,0x6273e03ffc1c},{773,0xb552d2edcde9},{773,0x15e6a8dd577ce},{773,0x1c663958a4198},{773,0x1cb7d5e5adbc1},{773,0x1f2a14e4b8455},{773,0x2bcb8d64e8715},{773,0x38052965327fd},{773,0x38d0132705fbf},{773,0x3c06bd7fee3ab},{773,0x3e92634b0c0fb},{773,0x48d97b05ebcb4},{773,0x4c41ed9af4041},{773,0x5033a41e185ba},{773,0x58cb7c5724513},{773,0x6ab1eefe8dd65},{773,0x6cb84dd0ff96d},{773,0x7288e1271f513},{773,0x7dafd59d786aa},{773,0x7dea570a0a986},{773,0x7e3987916a69e},{773,0xa429cdf4357c4},{773,0xa4f7f464d4355},{773,0xb0b2b93c7d3fc},{773,0xb0ed8f01afcac},{773,0xb512f5313aaa9},{773,0xc28f9813ead95},{773,0xca4009fb0d6e5},{773,0xcf2b1970e7258},{773,0xd025ea094ff24},{773,0xdd5fc57022e04},{773,0xe01efb743eada},{773,0xf1246c7284197},{773,0xf721ed2de7b4c},{773,0xf84d762d24897},{773,0xffcd1097a341c},
{774,0x6273e03ffc1c},{774,0xb552d2edcde9},{774,0x10a5c47c8e0a6},{774,0x14ea96c8256ed},{774,0x1b905d49e2a7f},{774,0x1c663958a4198},{774,0x1e74e8a3f2508},{774,0x1f2a14e4b8455},{774,0x2bcb8d64e8715},{774,0x38052965327fd},{774,0x3c06bd7fee3ab},{774,0x4c41ed9af4041},{774,0x5033a41e185ba},{774,0x58cb7c5724513},{774,0x5b1f374e536b8},{774,0x5c7d1db5f9cd7},{774,0x5f05d6dd17922},{774,0x7288e1271f513},{774,0x7dafd59d786aa},{774,0x8090fdaf7b748},{774,0x82fa274dd181c},{774,0x8c12126cb896c},{774,0x97938b498d1a5},{774,0x9d6d3845bd419},{774,0xa0f13431ba980},{774,0xa153d7d481683},{774,0xa4408d259e728},{774,0xada50e3d16bc5},{774,0xb0ed8f01afcac},{774,0xb512f5313aaa9},{774,0xb8d0514a00247},{774,0xc28f9813ead95},{774,0xca4009fb0d6e5},{774,0xdf5b28c8093c1},{774,0xe01efb743eada},{774,0xe653a783591a9},{774,0xf721ed2de7b4c},{774,0xffcd1097a341c},
{775,0xb552d2edcde9},{775,0x15a7e7e74c022},{775,0x1e74e8a3f2508},{775,0x1eab25ad0fcf6},{775,0x2bcb8d64e8715},{775,0x302c9af0fcde5},{775,0x33e925726b560},{775,0x375f7f1e04770},{775,0x38052965327fd},{775,0x3c06bd7fee3ab},{775,0x4424558d711f6},{775,0x4490b2a8e8a1c},{775,0x4c41ed9af4041},{775,0x58cb7c5724513},{775,0x5b1f374e536b8},{775,0x5b605314ad5c2},{775,0x5c7d1db5f9cd7},{775,0x7288e1271f513},{775,0x7aa3dfad94009},{775,0x7dafd59d786aa},{775,0x7e3987916a69e},{775,0x82fa274dd181c},{775,0x9d6d3845bd419},{775,0xa153d7d481683},{775,0xa4408d259e728},{775,0xac6e44553c35e},{775,0xada50e3d16bc5},{775,0xb512f5313aaa9},{775,0xc28f9813ead95},{775,0xcf2b1970e7258},{775,0xddc7e975c5045},{775,0xe5b7c353a4d32},{775,0xe916ec0c50ded},{775,0xf7351b2f09195},{775,0xfcfb9a2a17dc1},{775,0xfeccfec433ab3},{775,0xffcd1097a341c},
{776,0x1e77784fc868},{776,0xb552d2edcde9},{776,0x1da6c23353977},{776,0x1eab25ad0fcf6},{776,0x2745136b2cf4b},{776,0x302c9af0fcde5},{776,0x33e925726b560},{776,0x375f7f1e04770},{776,0x38052965327fd},{776,0x3c06bd7fee3ab},{776,0x4490b2a8e8a1c},{776,0x4ce6fa492622f},{776,0x58cb7c5724513},{776,0x5c7d1db5f9cd7},{776,0x5e0c2ef966888},{776,0x614f5b4c13e66},{776,0x63c56cfb5d11c},{776,0x6e22db4568793},{776,0x6ea05518282ca},{776,0x7aa3dfad94009},{776,0x7e3987916a69e},{776,0x851115f98844e},{776,0x87659752ebd87},{776,0x8dd2ba0aaca71},{776,0x9545b642ca40d},{776,0xa4408d259e728},{776,0xac6e44553c35e},{776,0xbb5cb3e6e340a},{776,0xbd9a90ddc122f},{776,0xc28f9813ead95},{776,0xcf14f09ec5c4b},{776,0xcf2b1970e7258},{776,0xda5e3f05d46be},{776,0xdc15ee558b51c},{776,0xddc7e975c5045},{776,0xe5b7c353a4d32},{776,0xe916ec0c50ded},{776,0xffcd1097a341c},
{777,0xb552d2edcde9},{777,0xe9479610ddeb},{777,0x1eab25ad0fcf6},{777,0x33e925726b560},{777,0x38052965327fd},{777,0x3b391f453bf45},{777,0x3c06bd7fee3ab},{777,0x49abdec262366},{777,0x4ce6fa492622f},{777,0x542b0fd222d9c},{777,0x5bf83e66bff5c},{777,0x5c7d1db5f9cd7},{777,0x614f5b4c13e66},{777,0x63c56cfb5d11c},{777,0x6e22db4568793},{777,0x851115f98844e},{777,0x87659752ebd87},{777,0xa4408d259e728},{777,0xc28f9813ead95},{777,0xcdb13d29c313a},{777,0xcf14f09ec5c4b},{777,0xd2102b3335642},{777,0xd802b63c849ee},{777,0xdc15ee558b51c},{777,0xddc7e975c5045},{777,0xe728575ca6581},{777,0xe8ee9de56c52f},{777,0xe916ec0c50ded},{777,0xef169707e6bc7},{777,0xf9a84b6773aea},
{778,0xe9479610ddeb},{778,0x1301971b093e4},{778,0x15c19b2d39f9c},{778,0x169fcf870ed71},{778,0x1eab25ad0fcf6},{778,0x20c969fd55e41},{778,0x2c6ff0bc47c5e},{778,0x2da8fd6429579},{778,0x33e925726b560},{778,0x3b391f453bf45},{778,0x49abdec262366},{778,0x4ce6fa492622f},{778,0x5bf83e66bff5c},{778,0x63c56cfb5d11c},{778,0x6e22db4568793},{778,0x851115f98844e},{778,0x85f5edd777fa7},{778,0x86cc5d774307a},{778,0xae9cb926a79ad},{778,0xbe9584834089e},{778,0xc5a5e703c21b5},{778,0xc7eb88a1a9dac},{778,0xcbb5c7e619b90},{778,0xcdb13d29c313a},{778,0xd2102b3335642},{778,0xd802b63c849ee},{778,0xd9cc65f8640a0},{778,0xdc15ee558b51c},{778,0xddc7e975c5045},{778,0xe4ba6b06dd942},{778,0xe728575ca6581},{778,0xf9a84b6773aea},{778,0xfcfa4e68497ec},
{779,0x1eab25ad0fcf6},{779,0x33e925726b560},{779,0x3b391f453bf45},{779,0x3cc384144b85c},{779,0x426155663ba82},{779,0x4ce6fa492622f},{779,0x5600d8d365902},{779,0x5bf83e66bff5c},{779,0x60fe55abb31a9},{779,0x63c56cfb5d11c},{779,0x6e22db4568793},{779,0x7e3987916a69e},{779,0x851115f98844e},{779,0x85f5edd777fa7},{779,0x8ab0d3543df7b},{779,0x99e46124954a4},{779,0xa1d54c9ad1e8b},{779,0xaf6ebdf8f6277},{779,0xb58f3ab7c02aa},{779,0xb9696841bbf9a},{779,0xc8a7b17bb7189},{779,0xcbb5c7e619b90},{779,0xd2102b3335642},{779,0xd802b63c849ee},{779,0xdc15ee558b51c},{779,0xddc7e975c5045},{779,0xe4e11ea231fb4},{779,0xf972c308efe4b},{779,0xfa9723d37cd10},{779,0xfb399f4c74d4f},{779,0xfcfa4e68497ec},
{780,0x59e24f85f5c9},{780,0xa705550ed290},{780,0x1eab25ad0fcf6},{780,0x33e925726b560},{780,0x3a55ff403aafc},{780,0x3b391f453bf45},{780,0x4ce6fa492622f},{780,0x50447887d44bc},{780,0x58421855d210a},{780,0x5aa3093d62155},{780,0x5ab36dfa1a625},{780,0x5bf83e66bff5c},{780,0x5deb8a0be73cc},{780,0x60fe55abb31a9},{780,0x63c56cfb5d11c},{780,0x6e22db4568793},{780,0x737a21c1958a8},{780,0x78260a3b3b4f7},{780,0x84039e34fee1b},{780,0x852707f200dc8},{780,0x85f5edd777fa7},{780,0x8ab0d3543df7b},{780,0x8ac755e26e9dc},{780,0x922805a8c6699},{780,0x99e46124954a4},{780,0xaf6ebdf8f6277},{780,0xb09e7b23c6172},{780,0xb5d6be0cba817},{780,0xd802b63c849ee},{780,0xddc7e975c5045},{780,0xe4e11ea231fb4},{780,0xf972c308efe4b},{780,0xfa9723d37cd10},{780,0xfb399f4c74d4f},{780,0xfcfa4e68497ec},
{781,0x7a9c2fc4326a},{781,0xa705550ed290},{781,0x1d8a85ebd98f2},{781,0x1eab25ad0fcf6},{781,0x29428fa0c2bfc},{781,0x2c809276a53f9},{781,0x372115a95f8e2},{781,0x3a55ff403aafc},{781,0x3b391f453bf45},{781,0x4ce6fa492622f},{781,0x57c1fce1cb8dd},{781,0x5a04f2c198aec},{781,0x5ab36dfa1a625},{781,0x5bf83e66bff5c},{781,0x5cf1e43953994},{781,0x63c56cfb5d11c},{781,0x6e22db4568793},{781,0x78260a3b3b4f7},{781,0x7bf15ade9d9cc},{781,0x815edc2af0523},{781,0x852707f200dc8},{781,0x85f5edd777fa7},{781,0x8ab0d3543df7b},{781,0x8ac755e26e9dc},{781,0x8c0ef45affda1},{781,0x922805a8c6699},{781,0x99e46124954a4},{781,0x9c357959938cd},{781,0xb92afecd1710c},{781,0xbebb309ef7633},{781,0xc65a34bca8b47},{781,0xd49bf38e8dcbc},{781,0xd802b63c849ee},{781,0xddc7e975c5045},{781,0xe7a52a45f029d},{781,0xecbf1e4d43b56},{781,0xf972c308efe4b},{781,0xfcfa4e68497ec},
{782,0xa705550ed290},{782,0xf6340e8276ff},{782,0x186f18675bf3b},{782,0x1eab25ad0fcf6},{782,0x257d65ac59570},{782,0x2c809276a53f9},{782,0x2eba0b6e3b906},{782,0x336b48db6ff7b},{782,0x3b391f453bf45},{782,0x3e47597acae14},{782,0x4ce6fa492622f},{782,0x5a04f2c198aec},{782,0x5bf83e66bff5c},{782,0x5c75115009c78},{782,0x5ee52fde7ae04},{782,0x63d6459cfb005},{782,0x6722eb3a0b3a9},{782,0x77a86ff87ca17},{782,0x78260a3b3b4f7},{782,0x7b97b9cf186f3},{782,0x7bf15ade9d9cc},{782,0x7e3987916a69e},{782,0x80c9aa00f2546},{782,0x8ab0d3543df7b},{782,0x92f9aabfca922},{782,0x99e46124954a4},{782,0xaaf686a3479ba},{782,0xb92afecd1710c},{782,0xbcfeb167ac489},{782,0xc364a781559ad},{782,0xc45016d841baa},{782,0xddc7e975c5045},{782,0xde449d4e1295d},{782,0xe7a52a45f029d},{782,0xecbf1e4d43b56},{782,0xf1d1a7ee6def1},{782,0xf972c308efe4b},{782,0xfcfa4e68497ec},{782,0xfe912183ddc01},
{783,0x2ebcb6dd4e6},{783,0xa705550ed290},{783,0x186f18675bf3b},{783,0x1eab25ad0fcf6},{783,0x257d65ac59570},{783,0x2ddbb11cde3a0},{783,0x327e63631ee41},{783,0x336b48db6ff7b},{783,0x3c9e76642e02a},{783,0x4140b5a50567e},{783,0x590c3621cdd40},{783,0x5a04f2c198aec},{783,0x5c36a7db64dea},{783,0x5c75115009c78},{783,0x7266245203a64},{783,0x78260a3b3b4f7},{783,0x7b6c414b7ad11},{783,0x7b97b9cf186f3},{783,0x7e3987916a69e},{783,0x80c9aa00f2546},{783,0x835e60d56017a},{783,0x9714e15c3b27f},{783,0x9b9acd1bd569d},{783,0xa0cf178960025},{783,0xaaf686a3479ba},{783,0xb92afecd1710c},{783,0xcd634d6eb8a67},{783,0xd2d39c3854d94},{783,0xda9a433e9c81b},{783,0xddc7e975c5045},{783,0xde449d4e1295d},{783,0xecbf1e4d43b56},{783,0xee2c857cd1623},{783,0xfed2a5a5337c2},{783,0xff1d0f931712e},
{784,0x2ebcb6dd4e6},{784,0xa705550ed290},{784,0x1657a796c1470},{784,0x2ddbb11cde3a0},{784,0x2f43eafc8703a},{784,0x3151987053733},{784,0x327e63631ee41},{784,0x39cf22251c557},{784,0x499433bb53f04},{784,0x555236cf2d19c},{784,0x590c3621cdd40},{784,0x5a04f2c198aec},{784,0x5b3d0208d13b2},{784,0x5c36a7db64dea},{784,0x5c55dc95b7531},{784,0x5c75115009c78},{784,0x5fbd1e9b37e8e},{784,0x66358b89ce2a8},{784,0x738357f4faa56},{784,0x7b6c414b7ad11},{784,0x7b97b9cf186f3},{784,0x7cd0bfdfe6999},{784,0xa0cf178960025},{784,0xaaf686a3479ba},{784,0xb00d4c047942d},{784,0xb92afecd1710c},{784,0xbf4b807f92835},{784,0xcd634d6eb8a67},{784,0xda9a433e9c81b},{784,0xdaedb1964503f},{784,0xddc7e975c5045},{784,0xde449d4e1295d},{784,0xe349d8290bec2},{784,0xe5fa37794b334},{784,0xecbf1e4d43b56},{784,0xfed2a5a5337c2},
{785,0x2ebcb6dd4e6},{785,0x6810b7a515b4},{785,0x1ae27b3b6c2f7},{785,0x2f43eafc8703a},{785,0x3d278ea342506},{785,0x4140b5a50567e},{785,0x507eea201ea86},{785,0x533c1122314bf},{785,0x555236cf2d19c},{785,0x590c3621cdd40},{785,0x5a04f2c198aec},{785,0x5bd909ac6d815},{785,0x5c55dc95b7531},{785,0x5c75115009c78},{785,0x5fbd1e9b37e8e},{785,0x601d3f25b36ca},{785,0x7b97b9cf186f3},{785,0x8c09dfb99775a},{785,0x96572b6108db1},{785,0xadb08b88f25b4},{785,0xb00d4c047942d},{785,0xb92afecd1710c},{785,0xc45016d841baa},{785,0xcd634d6eb8a67},{785,0xd0587a2c5a631},{785,0xdbfed23925467},{785,0xddc7e975c5045},{785,0xde449d4e1295d},{785,0xe1e11077881bd},{785,0xecbf1e4d43b56},{785,0xefc3589865a38},{785,0xf65ed38057912},{785,0xfd314437c2bbd},{785,0xfed2a5a5337c2},
{786,0x2ebcb6dd4e6},{786,0x7cdd6f469eea},{786,0x19883163a4665},{786,0x1ab20e472914a},{786,0x1ae27b3b6c2f7},{786,0x2cc2f29c35f28},{786,0x4140b5a50567e},{786,0x43e320c804b23},{786,0x533c1122314bf},{786,0x55be78add4dd3},{786,0x581e045dab48a},{786,0x590c3621cdd40},{786,0x5a04f2c198aec},{786,0x5c75115009c78},{786,0x5d1118f3a60db},{786,0x636a6a2a2d5f4},{786,0x7b97b9cf186f3},{786,0x8c09dfb99775a},{786,0x9190e30e46c1d},{786,0x96572b6108db1},{786,0xa467c75d19bbc},{786,0xa98c898327fcc},{786,0xb00d4c047942d},{786,0xb581bdcbdced7},{786,0xc9e32d8cf7c1a},{786,0xcd634d6eb8a67},{786,0xddc7e975c5045},{786,0xde449d4e1295d},{786,0xe1e11077881bd},{786,0xf65ed38057912},{786,0xfcda19b349f1f},{786,0xfed2a5a5337c2},
{787,0x3fe49d5a39e8},{787,0x534b1aa6a92a},{787,0x170c0b6f832f2},{787,0x19883163a4665},{787,0x1ab20e472914a},{787,0x1ae27b3b6c2f7},{787,0x22548dca65cb1},{787,0x229da4f5d838f},{787,0x4140b5a50567e},{787,0x43a55abda1d7d},{787,0x43e320c804b23},{787,0x581e045dab48a},{787,0x5a04f2c198aec},{787,0x5bed917c7198c},{787,0x5d1118f3a60db},{787,0x675c38d8c4892},{787,0x6941b1bbdb897},{787,0x7c938c44bf62a},{787,0x7eb9febf73c7e},{787,0x9190e30e46c1d},{787,0x93c50974037f2},{787,0x96572b6108db1},{787,0x9d97553a730c1},{787,0xa467c75d19bbc},{787,0xb00d4c047942d},{787,0xb581bdcbdced7},{787,0xb7ac664205e31},{787,0xc04213e0a39a4},{787,0xd9615aa5fbbf8},{787,0xfcda19b349f1f},
{788,0x3fe49d5a39e8},{788,0x19883163a4665},{788,0x1ab20e472914a},{788,0x1ae27b3b6c2f7},{788,0x1ec01018a2343},{788,0x4140b5a50567e},{788,0x488782ddf101f},{788,0x4d2be4f3dd51b},{788,0x544e773ee4f88},{788,0x5a04f2c198aec},{788,0x5b8fc34f0bb93},{788,0x7c938c44bf62a},{788,0x7eb9febf73c7e},{788,0x9190e30e46c1d},{788,0x95f98d32117dc},{788,0x96572b6108db1},{788,0x9d97553a730c1},{788,0xa33b5ce8db922},{788,0xa467c75d19bbc},{788,0xa49ea4a826527},{788,0xa4d77f13dd3d1},{788,0xa80b156abd9ef},{788,0xb357d2c6b19f1},{788,0xb581bdcbdced7},{788,0xb7ac664205e31},{788,0xd4fa4dd497abb},{788,0xe1e11077881bd},{788,0xed78564c559b8},
{789,0x3fe49d5a39e8},{789,0xed9bd6bfd003},{789,0x19883163a4665},{789,0x1ab20e472914a},{789,0x1ae27b3b6c2f7},{789,0x1ec01018a2343},{789,0x2428a4b53a9da},{789,0x3f16cbbb69a63},{789,0x4140b5a50567e},{789,0x463551d2fada1},{789,0x4d2be4f3dd51b},{789,0x544e773ee4f88},{789,0x5a04f2c198aec},{789,0x5b8fc34f0bb93},{789,0x5dd5580bd4c0d},{789,0x7c938c44bf62a},{789,0x8fe77496cd7a6},{789,0x9190e30e46c1d},{789,0x91d63f05687cc},{789,0x9d97553a730c1},{789,0xa467c75d19bbc},{789,0xa80b156abd9ef},{789,0xa90c2973060b8},{789,0xae258575161ac},{789,0xb357d2c6b19f1},{789,0xdf9ee725da5ef},{789,0xe1e11077881bd},{789,0xeeb798fc87e42},
{790,0x3fe49d5a39e8},{790,0xc74db83d4c3a},{790,0xed9bd6bfd003},{790,0x1ab20e472914a},{790,0x1ae27b3b6c2f7},{790,0x1ec01018a2343},{790,0x2092ec3c72f77},{790,0x2d28dc1e6d8ac},{790,0x336563af7d785},{790,0x3a8bfa59580fc},{790,0x3f16cbbb69a63},{790,0x4140b5a50567e},{790,0x5035503d21e10},{790,0x5911e7a55cdca},{790,0x5a04f2c198aec},{790,0x5b8fc34f0bb93},{790,0x70e319a5b4517},{790,0x7c938c44bf62a},{790,0x8f1701879eaa1},{790,0x8fe77496cd7a6},{790,0x9190e30e46c1d},{790,0x91d63f05687cc},{790,0x9d97553a730c1},{790,0xa467c75d19bbc},{790,0xa4f6b3ce2fb18},{790,0xa80b156abd9ef},{790,0xae258575161ac},{790,0xb2e8f5db8dfef},{790,0xb357d2c6b19f1},{790,0xbe9b1e3026b58},{790,0xc133470ef5ab6},{790,0xcbfe3c6b113a8},{790,0xd2ec75df6ba2a},{790,0xfbd97544d7891},
{791,0x3fe49d5a39e8},{791,0x573840b449ed},{791,0x8c1ba3c1b82b},{791,0x1fb7754fefb56},{791,0x248c6f64733b5},{791,0x2d28dc1e6d8ac},{791,0x2e8818bd803d9},{791,0x3f16cbbb69a63},{791,0x46955f0978c01},{791,0x475e6a5875ee0},{791,0x5035503d21e10},{791,0x54de34319676b},{791,0x58c6da2aac191},{791,0x5911e7a55cdca},{791,0x5a04f2c198aec},{791,0x5b8fc34f0bb93},{791,0x7c938c44bf62a},{791,0x80a481d3b3e53},{791,0x839bb68d397bb},{791,0x8fe77496cd7a6},{791,0x9190e30e46c1d},{791,0x91d63f05687cc},{791,0x9d97553a730c1},{791,0xa1376a2728249},{791,0xa33eaed79ea7d},{791,0xa448e457e84e9},{791,0xa467c75d19bbc},{791,0xa4f6b3ce2fb18},{791,0xa962150e9e36a},{791,0xba0c26ce68a32},{791,0xcbfe3c6b113a8},{791,0xd2ec75df6ba2a},{791,0xf9b24277df909},{791,0xfbd97544d7891},
{792,0x8c1ba3c1b82b},{792,0x906ed62b6835},{792,0x1fb7754fefb56},{792,0x209d4dc6e3f0d},{792,0x248c6f64733b5},{792,0x3f16cbbb69a63},{792,0x475e6a5875ee0},{792,0x5035503d21e10},{792,0x54de34319676b},{792,0x57cf74f35e97e},{792,0x5911e7a55cdca},{792,0x5a04f2c198aec},{792,0x70e319a5b4517},{792,0x7c938c44bf62a},{792,0x7e85bb51e3965},{792,0x80a481d3b3e53},{792,0x83d2ab966c5b8},{792,0x8a088cc800a8f},{792,0x9190e30e46c1d},{792,0x94bc6eab51005},{792,0x982735d763675},{792,0x9d97553a730c1},{792,0xa1376a2728249},{792,0xa33eaed79ea7d},{792,0xa448e457e84e9},{792,0xa4f6b3ce2fb18},{792,0xa962150e9e36a},{792,0xb9b6364f30304},{792,0xbbaa1e9e42af3},{792,0xd2ec75df6ba2a},{792,0xdd72c4c36a9e0},{792,0xe0abb5e083d99},
{793,0x1f8dea85fbc96},{793,0x248c6f64733b5},{793,0x250137f090754},{793,0x3532bf9dd4ee9},{793,0x3b28b27523ea5},{793,0x3bc37521a726a},{793,0x3f16cbbb69a63},{793,0x475e6a5875ee0},{793,0x54de34319676b},{793,0x5911e7a55cdca},{793,0x5ca46f07e21dd},{793,0x6e9eea844946c},{793,0x70e319a5b4517},{793,0x731a3f7fc3105},{793,0x7c938c44bf62a},{793,0x7e85bb51e3965},{793,0x891f9bdaf520b},{793,0x8d8a641411c50},{793,0x9190e30e46c1d},{793,0x94bc6eab51005},{793,0x9caf4fff45c5f},{793,0x9d97553a730c1},{793,0xa1376a2728249},{793,0xa4f6b3ce2fb18},{793,0xb0a81bda1bdf6},{793,0xbbaa1e9e42af3},{793,0xc36a6ce9046a5},{793,0xccd46e4ebfe2d},{793,0xcf5703f9cbdbc},{793,0xd2ec75df6ba2a},{793,0xdd72c4c36a9e0},{793,0xe0abb5e083d99},{793,0xe55dbb5aaa3b7},{793,0xf81a2b9dcffc2},
{794,0x15850fd39980e},{794,0x1f1cd68045b8f},{794,0x1f8dea85fbc96},{794,0x250137f090754},{794,0x2a27cb0f0d53c},{794,0x2c5a5b7843e58},{794,0x2dbd7538cb6e0},{794,0x3b28b27523ea5},{794,0x3bc37521a726a},{794,0x4ad3dd856692f},{794,0x5911e7a55cdca},{794,0x5b490d7f6b9b9},{794,0x5fc9da1f19f56},{794,0x661613928ff68},{794,0x7b696889b34cc},{794,0x7c938c44bf62a},{794,0x891f9bdaf520b},{794,0x8ad33f10faa07},{794,0x9caf4fff45c5f},{794,0x9d97553a730c1},{794,0x9ef35d1336f54},{794,0xa1376a2728249},{794,0xa3a04d31a0faa},{794,0xa5f5481f459f3},{794,0xa72aef348f77b},{794,0xb0a81bda1bdf6},{794,0xb0c86e7d08719},{794,0xb7b3241155723},{794,0xbbaa1e9e42af3},{794,0xccd46e4ebfe2d},{794,0xce886fb5ffd6d},{794,0xd06e98d637842},{794,0xd2ec75df6ba2a},{794,0xdd72c4c36a9e0},{794,0xe55dbb5aaa3b7},{794,0xe8176ca6dceda},{794,0xe8e06e2077541},{794,0xf05accef7f853},
{795,0x49d522795f68},{795,0xf672bca47bf6},{795,0x15850fd39980e},{795,0x22bd42ae7fe2f},{795,0x250137f090754},{795,0x2a27cb0f0d53c},{795,0x2c5a5b7843e58},{795,0x34c0752d394a5},{795,0x3b28b27523ea5},{795,0x3bc37521a726a},{795,0x40986f362aac9},{795,0x4a5fdae7cfefe},{795,0x4b48a8bb64243},{795,0x4c635ac9ab4d4},{795,0x5b490d7f6b9b9},{795,0x5c5df57eabdfb},{795,0x5d3de1d0e4993},{795,0x661613928ff68},{795,0x681b03300bd46},{795,0x7b696889b34cc},{795,0x7c938c44bf62a},{795,0x9c5de9216b1cc},{795,0xa1376a2728249},{795,0xa3a04d31a0faa},{795,0xa72aef348f77b},{795,0xb0a81bda1bdf6},{795,0xb9b6364f30304},{795,0xbbaa1e9e42af3},{795,0xc6f91114f948a},{795,0xc7dfd68194b2e},{795,0xccd46e4ebfe2d},{795,0xce886fb5ffd6d},{795,0xdada6e379b9b7},{795,0xdd72c4c36a9e0},{795,0xe8e06e2077541},{795,0xf05accef7f853},{795,0xf30cd0e9b353e},{795,0xf489c661e8cec},{795,0xf6e66e09530cb},{795,0xfbead4b2d211a},
{796,0x49d522795f68},{796,0x1411e1f17e1e2},{796,0x15850fd39980e},{796,0x2a27cb0f0d53c},{796,0x2a67bafa22a2c},{796,0x2c5a5b7843e58},{796,0x34c0752d394a5},{796,0x3b28b27523ea5},{796,0x40986f362aac9},{796,0x4a5fdae7cfefe},{796,0x5b490d7f6b9b9},{796,0x661613928ff68},{796,0x66e40c2057273},{796,0x74a99bfd83729},{796,0x7b696889b34cc},{796,0x7c938c44bf62a},{796,0x86b66ec27547b},{796,0x8c618f8513d9e},{796,0x95e328c372380},{796,0x9a3d63b8441d7},{796,0x9cd6718fb407d},{796,0xa1376a2728249},{796,0xa1c46c2afd4a4},{796,0xa72aef348f77b},{796,0xb0a81bda1bdf6},{796,0xb88ea9535418b},{796,0xc6f91114f948a},{796,0xc7dfd68194b2e},{796,0xccd46e4ebfe2d},{796,0xce886fb5ffd6d},{796,0xdd72c4c36a9e0},{796,0xefe36e14e5306},{796,0xf30cd0e9b353e},{796,0xf6e66e09530cb},{796,0xf93534842bea6},{796,0xfbead4b2d211a},{796,0xfde96dfdc0e90},
{797,0x49d522795f68},{797,0xc908eadebf8e},{797,0x15850fd39980e},{797,0x1736b35ba4700},{797,0x2a27cb0f0d53c},{797,0x2a67bafa22a2c},{797,0x2c5a5b7843e58},{797,0x365d00e6eec63},{797,0x3b28b27523ea5},{797,0x40986f362aac9},{797,0x43d476db03cee},{797,0x483ee746594ca},{797,0x4a5fdae7cfefe},{797,0x55b41c4b85dc7},{797,0x5b490d7f6b9b9},{797,0x661613928ff68},{797,0x66e40c2057273},{797,0x69fa2b10b0e92},{797,0x7b696889b34cc},{797,0x7c938c44bf62a},{797,0x86b66ec27547b},{797,0x8c618f8513d9e},{797,0x95e328c372380},{797,0x9e84d5af97dca},{797,0xa72aef348f77b},{797,0xa9c56e889a954},{797,0xbc78f372e216f},{797,0xc6f91114f948a},{797,0xccd46e4ebfe2d},{797,0xce886fb5ffd6d},{797,0xd55199b423334},{797,0xd80c41b9d8708},{797,0xefe36e14e5306},{797,0xf93534842bea6},{797,0xfbead4b2d211a},{797,0xfde96dfdc0e90},
{798,0xb576fbfbeb9},{798,0x644303f049ca},{798,0x7b876f069c7e},{798,0xc133fd13b438},{798,0x11f711b77e265},{798,0x1411e1f17e1e2},{798,0x1486f7a4b48d4},{798,0x15850fd39980e},{798,0x1736b35ba4700},{798,0x1949f29648df4},{798,0x2a67bafa22a2c},{798,0x40986f362aac9},{798,0x42d8643cc71f2},{798,0x43d476db03cee},{798,0x4a5fdae7cfefe},{798,0x5b490d7f6b9b9},{798,0x60e6c7094ce06},{798,0x66e40c2057273},{798,0x88ac75fe649c4},{798,0x91ae7fc99c9f1},{798,0x9573329a55db4},{798,0x95e328c372380},{798,0x9d6cee48d0f4c},{798,0x9e1ad2ea3d2d3},{798,0x9e1ad2ea3d2d4},{798,0x9e84d5af97dca},{798,0xa20b235a22a9d},{798,0xbf9b987733f42},{798,0xc22b7e646a5b1},{798,0xc6f91114f948a},{798,0xccd46e4ebfe2d},{798,0xce886fb5ffd6d},{798,0xd55199b423334},{798,0xd80c41b9d8708},{798,0xe61f5ea0439ed},{798,0xeb3d15c7e1920},{798,0xefe36e14e5306},{798,0xf93534842bea6},{798,0xfbead4b2d211a},
{799,0xb576fbfbeb9},{799,0x6f07e4e17c5b},{799,0x1411e1f17e1e2},{799,0x15850fd39980e},{799,0x1736b35ba4700},{799,0x23c476c221392},{799,0x2a67bafa22a2c},{799,0x3f8d04e3b00fb},{799,0x40986f362aac9},{799,0x46a09140c862f},{799,0x54c7adb943efb},{799,0x59165a6ddda5b},{799,0x5978ff0e353ad},{799,0x5b490d7f6b9b9},{799,0x61ca6d4593476},{799,0x66e40c2057273},{799,0x698628731a461},{799,0x6f17e2384edc5},{799,0x712ca6454dd5c},{799,0x7501a9b8ab4b7},{799,0x82d0f27715587},{799,0x88ac75fe649c4},{799,0x8eba45f1eafb5},{799,0x9573329a55db4},{799,0x99fc0424f6dbf},{799,0x9e84d5af97dca},{799,0xa7d2c389aef27},{799,0xbf9b987733f42},{799,0xc6f91114f948a},{799,0xce6ac0dae6728},{799,0xce886fb5ffd6d},{799,0xe31f4b669cb4c},{799,0xe61f5ea0439ed},{799,0xeb3d15c7e1920},{799,0xefe36e14e5306},{799,0xf93534842bea6},
{800,0xb576fbfbeb9},{800,0x2aca2062ca90},{800,0x2d0c3d2663c4},{800,0x51ac39ade4e6},{800,0x7b77a02a48a9},{800,0x121425afbf681},{800,0x167c4770b9c80},{800,0x1736b35ba4700},{800,0x23c476c221392},{800,0x2a67bafa22a2c},{800,0x3f8d04e3b00fb},{800,0x40986f362aac9},{800,0x46a09140c862f},{800,0x4fb4b25966f71},{800,0x5b490d7f6b9b9},{800,0x7501a9b8ab4b7},{800,0x87d8bdfa72d93},{800,0x89d3f26b8334c},{800,0x8a94807b641ce},{800,0x8eba45f1eafb5},{800,0x9400b7621a88d},{800,0x99fc0424f6dbf},{800,0x9a4ea117ef9fc},{800,0x9e84d5af97dca},{800,0xa7d2c389aef27},{800,0xaa9ba06c493d9},{800,0xaedaa0fc32ac8},{800,0xb63b7d2cd2498},{800,0xbf9b987733f42},{800,0xc3deb034a20ee},{800,0xc6f91114f948a},{800,0xce886fb5ffd6d},{800,0xd024771135a2b},{800,0xe4e88fd678487},{800,0xe61f5ea0439ed},{800,0xefe36e14e5306},{800,0xf93534842bea6},
{801,0xb576fbfbeb9},{801,0x2d0c3d2663c4},{801,0x51ac39ade4e6},{801,0x8c5931ff7dc9},{801,0x902829a7d66b},{801,0x23c476c221392},{801,0x2a67bafa22a2c},{801,0x2e3f93ddf43d2},{801,0x34f89275a1a0a},{801,0x40986f362aac9},{801,0x68255b9c0b738},{801,0x689dc256a6576},{801,0x6a57788cf5879},{801,0x7501a9b8ab4b7},{801,0x76bcdb3827e1d},{801,0x81ddf7d54b236},{801,0x87d8bdfa72d93},{801,0x88528720e2f9f},{801,0x89d3f26b8334c},{801,0x8a94807b641ce},{801,0x9400b7621a88d},{801,0x9e84d5af97dca},{801,0xa1d7e16fe354d},{801,0xaa9ba06c493d9},{801,0xaedaa0fc32ac8},{801,0xb63b7d2cd2498},{801,0xbbdd608882043},{801,0xbcdbb04034329},{801,0xc6f91114f948a},{801,0xce886fb5ffd6d},{801,0xd024771135a2b},{801,0xd1de2d4784d2e},{801,0xe61f5ea0439ed},{801,0xefe36e14e5306},{801,0xf93534842bea6},
{802,0xb576fbfbeb9},{802,0x2d0c3d2663c4},{802,0x1afb86f04c63e},{802,0x23c476c221392},{802,0x2617a2e8a3085},{802,0x31c9b487bcc4b},{802,0x3c3522e44293d},{802,0x40986f362aac9},{802,0x53c764260746b},{802,0x56cc3496d236f},{802,0x59165a6ddda5b},{802,0x5b490d7f6b9b9},{802,0x689dc256a6576},{802,0x6a57788cf5879},{802,0x6e9382aa5b5f7},{802,0x7501a9b8ab4b7},{802,0x75bda3c2587ea},{802,0x7b6fd0c6fb376},{802,0x855ec94d21355},{802,0x87d8bdfa72d93},{802,0x89d3f26b8334c},{802,0x94d521e393fd2},{802,0x9b96940e8ad34},{802,0x9bbab0df4aa54},{802,0xaedaa0fc32ac8},{802,0xaf5bf109550f2},{802,0xb63b7d2cd2498},{802,0xb9b192fcf4389},{802,0xbbdd608882043},{802,0xbcdbb04034329},{802,0xce886fb5ffd6d},{802,0xd024771135a2b},{802,0xd1de2d4784d2e},{802,0xd5e2dfa120b39},{802,0xddeff35f9295e},{802,0xe7e70f0d9f584},{802,0xefe36e14e5306},{802,0xfda582378ff28},
{803,0x2d0c3d2663c4},{803,0x148a2bc358829},{803,0x1b6728584eaaf},{803,0x2617a2e8a3085},{803,0x31c9b487bcc4b},{803,0x40986f362aac9},{803,0x48050091c3c24},{803,0x56cc3496d236f},{803,0x59165a6ddda5b},{803,0x5b490d7f6b9b9},{803,0x6a57788cf5879},{803,0x6e9382aa5b5f7},{803,0x7501a9b8ab4b7},{803,0x7b6fd0c6fb376},{803,0x855ec94d21355},{803,0x87d8bdfa72d93},{803,0x89d3f26b8334c},{803,0x94d521e393fd2},{803,0x9b96940e8ad34},{803,0x9bbab0df4aa54},{803,0xaedaa0fc32ac8},{803,0xbcdbb04034329},{803,0xcf0b009fae285},{803,0xd024771135a2b},{803,0xd5e2dfa120b39},{803,0xda7ebc5710c3d},{803,0xddeff35f9295e},{803,0xe7e70f0d9f584},{803,0xfda582378ff28},
{804,0x2d0c3d2663c4},{804,0x6f1555d58b22},{804,0x148a2bc358829},{804,0x2617a2e8a3085},{804,0x453df073ed5e8},{804,0x4738a2498c95a},{804,0x48050091c3c24},{804,0x4e4da79a6eb88},{804,0x7501a9b8ab4b7},{804,0x75c5cfb4c226d},{804,0x7b6fd0c6fb376},{804,0x7eba0fbb2f6f9},{804,0x7ecf46d79a800},{804,0x81b64dc7e2e07},{804,0x855ec94d21355},{804,0x89d3f26b8334c},{804,0x99ca8b627734c},{804,0x9bbab0df4aa54},{804,0xa206552c2cb9e},{804,0xb5d45c54fe03d},{804,0xbcdbb04034329},{804,0xc22eb2830e506},{804,0xcf0b009fae285},{804,0xe25575ca9dec3},{804,0xedcabacb91443},{804,0xfafd50c538f59},{804,0xfc0fac132f96c},{804,0xfda582378ff28},
{805,0x2d0c3d2663c4},{805,0xe18d09664a15},{805,0x148a2bc358829},{805,0x1cd606de162aa},{805,0x2617a2e8a3085},{805,0x288f35b66a7a6},{805,0x4384f4c6ffcb5},{805,0x4743cc7591063},{805,0x47fcfe4529dd0},{805,0x48050091c3c24},{805,0x4bd6486f0b4a8},{805,0x4e4da79a6eb88},{805,0x60c9f618b1e49},{805,0x61ba68ac5f7cd},{805,0x6e6d113aabdfb},{805,0x75c5cfb4c226d},{805,0x7b6fd0c6fb376},{805,0x838a8b8a820ae},{805,0x855ec94d21355},{805,0x89d3f26b8334c},{805,0x99ca8b627734c},{805,0x9bbab0df4aa54},{805,0xaf5bf109550f2},{805,0xb159e0fa21f6f},{805,0xb5d45c54fe03d},{805,0xbcdbb04034329},{805,0xce152bf393e79},{805,0xdbec8082b6941},{805,0xe8c6d0f791cd8},{805,0xedcabacb91443},{805,0xf5a18504dfaac},{805,0xfda582378ff28},{805,0xff6bd63626612},
{806,0x13e1c8916c40},{806,0x2d0c3d2663c4},{806,0xd9976a5d5297},{806,0x148a2bc358829},{806,0x1cd606de162aa},{806,0x21879ef3a84b1},{806,0x2617a2e8a3085},{806,0x288f35b66a7a6},{806,0x3892d8de7971a},{806,0x4384f4c6ffcb5},{806,0x47fcfe4529dd0},{806,0x48050091c3c24},{806,0x4bd6486f0b4a8},{806,0x4e4da79a6eb88},{806,0x5bb10fdb09f8d},{806,0x60c9f618b1e49},{806,0x6bb8c1f1627fa},{806,0x6e6d113aabdfb},{806,0x6e951cb9ad5a2},{806,0x740c197e72f6a},{806,0x75c5cfb4c226d},{806,0x7b6fd0c6fb376},{806,0x8515d8641c16b},{806,0x855ec94d21355},{806,0x9bbab0df4aa54},{806,0xa2f52362fbe4c},{806,0xa4bde5534d9e8},{806,0xb159e0fa21f6f},{806,0xb888aae5ed711},{806,0xbcdbb04034329},{806,0xc8900916ce671},{806,0xcc64186175635},{806,0xce152bf393e79},{806,0xd0802e856c4d2},{806,0xe5476f2a7fb10},{806,0xebfb7d67becb8},{806,0xf5a18504dfaac},{806,0xff6bd63626612},
{807,0x13e1c8916c40},{807,0x2d0c3d2663c4},{807,0x144a195e89585},{807,0x148a2bc358829},{807,0x15affcc4685b5},{807,0x1af384a3b27e9},{807,0x2617a2e8a3085},{807,0x288f35b66a7a6},{807,0x3892d8de7971a},{807,0x3b6e6ea86c997},{807,0x3e56f6a808fdb},{807,0x48050091c3c24},{807,0x4b25e67de1526},{807,0x4e4da79a6eb88},{807,0x5bb10fdb09f8d},{807,0x65c22c8cb32f9},{807,0x66896b54a2f9d},{807,0x6ce9a59f70e03},{807,0x6e6d113aabdfb},{807,0x6f31a799ee3ed},{807,0x784a16e12c748},{807,0x7b6fd0c6fb376},{807,0x855ec94d21355},{807,0x85f1d86332e89},{807,0x8e83fe1a3d098},{807,0x94e31de74ef03},{807,0xa2f52362fbe4c},{807,0xa4bde5534d9e8},{807,0xaaf6f4f703606},{807,0xb888aae5ed711},{807,0xbcdbb04034329},{807,0xc49fe450d4caf},{807,0xc8900916ce671},{807,0xd0802e856c4d2},{807,0xe0281a394499f},{807,0xe28cb396187d2},{807,0xe5476f2a7fb10},{807,0xf5a18504dfaac},{807,0xf6fb0002e16e4},{807,0xff6bd63626612},
{808,0xd9976a5d5297},{808,0x101a171222a78},{808,0x1af384a3b27e9},{808,0x2617a2e8a3085},{808,0x27f2fa7a9e752},{808,0x288f35b66a7a6},{808,0x317c429abb207},{808,0x3b6e6ea86c997},{808,0x4980a44409f44},{808,0x5b3b7c4a6dbf5},{808,0x5bb10fdb09f8d},{808,0x5ce363b7821a9},{808,0x6e6d113aabdfb},{808,0x71c4e6eabe690},{808,0x784a16e12c748},{808,0x7b6fd0c6fb376},{808,0x86eb52707515b},{808,0x884a84d44914b},{808,0x8e83fe1a3d098},{808,0x946631f8bfbe3},{808,0x9606abed1138b},{808,0x99fc3dd674544},{808,0x9b7e8d28bd236},{808,0x9ed342cb51b68},{808,0xa2f52362fbe4c},{808,0xa4bde5534d9e8},{808,0xaaf6f4f703606},{808,0xb888aae5ed711},{808,0xbcdbb04034329},{808,0xc0bdca48847ec},{808,0xc49fe450d4caf},{808,0xc75af9b85078f},{808,0xc8900916ce671},{808,0xca8bbc1f246a5},{808,0xd0802e856c4d2},{808,0xd71517f5668df},{808,0xe0281a394499f},{808,0xe28cb396187d2},{808,0xe3b0b493572c7},{808,0xe3bd974426ddb},{808,0xe42903034857c},{808,0xe5476f2a7fb10},{808,0xf5a18504dfaac},{808,0xf6fb0002e16e4},
{809,0xa16f90a2c63d},{809,0xd9976a5d5297},{809,0x2617a2e8a3085},{809,0x288f35b66a7a6},{809,0x2bcee08710613},{809,0x317c429abb207},{809,0x3c93c1a87d2f7},{809,0x3f497e0da57bb},{809,0x4980a44409f44},{809,0x5b3b7c4a6dbf5},{809,0x5ce363b7821a9},{809,0x704d22cbc77a5},{809,0x784a16e12c748},{809,0x86eb52707515b},{809,0x884a84d44914b},{809,0x8e83fe1a3d098},{809,0x9606abed1138b},{809,0x99a0f1b6c5540},{809,0x99fc3dd674544},{809,0xb81f02551f2fd},{809,0xb888aae5ed711},{809,0xbcdbb04034329},{809,0xc0bdca48847ec},{809,0xc49fe450d4caf},{809,0xc8900916ce671},{809,0xca3a63e818b0a},{809,0xcafe3b47214ee},{809,0xd0463269c5af8},{809,0xd0802e856c4d2},{809,0xd71517f5668df},{809,0xe0281a394499f},{809,0xe3bd974426ddb},{809,0xe42903034857c},{809,0xe76b9afe7f5d8},{809,0xf5a18504dfaac},{809,0xfaa37b881fc32},
{810,0x1c9ddf74fcc82},{810,0x24f1a58b7037f},{810,0x252bbd937c628},{810,0x2617a2e8a3085},{810,0x288f35b66a7a6},{810,0x2bcee08710613},{810,0x337d2e60d73f3},{810,0x472fd3291e9d8},{810,0x52032179817ba},{810,0x52099b70505c0},{810,0x5b3b7c4a6dbf5},{810,0x5ce363b7821a9},{810,0x65c44f8b1a9cd},{810,0x7837626bf2961},{810,0x784a16e12c748},{810,0x79c6b87ec5e4a},{810,0x7f149d6792bf5},{810,0x8e5dedf0e0e4b},{810,0x8e83fe1a3d098},{810,0x941277e8812ec},{810,0x9606abed1138b},{810,0xa53fc9631d10c},{810,0xac261955a4030},{810,0xafdad8efd5e90},{810,0xb888aae5ed711},{810,0xbcdbb04034329},{810,0xc8900916ce671},{810,0xd0802e856c4d2},{810,0xdfedf4767c2db},{810,0xe3bd974426ddb},{810,0xf5a18504dfaac},{810,0xf71b36bce8a96},
{811,0x4cda311f5b4},{811,0x1eca13b581d18},{811,0x24204dcc60845},{811,0x288f35b66a7a6},{811,0x2bcee08710613},{811,0x3f3962b0a1de2},{811,0x40b954d283000},{811,0x472fd3291e9d8},{811,0x512af71a982f8},{811,0x52032179817ba},{811,0x52099b70505c0},{811,0x5b3b7c4a6dbf5},{811,0x5ce363b7821a9},{811,0x66e77f8cc3c59},{811,0x74554863a249e},{811,0x784a16e12c748},{811,0x79c6b87ec5e4a},{811,0x8549232b1ee69},{811,0x891fb23cee397},{811,0x8e5dedf0e0e4b},{811,0x8e83fe1a3d098},{811,0x914b3b015f1c2},{811,0x941277e8812ec},{811,0x9606abed1138b},{811,0xa53fc9631d10c},{811,0xb888aae5ed711},{811,0xc5f75b44bf6fa},{811,0xd0802e856c4d2},{811,0xebc832a0bbfba},{811,0xf5a18504dfaac},{811,0xf71b36bce8a96},
{812,0x3da6a608b4a},{812,0x4cda311f5b4},{812,0xad5ad71cc38c},{812,0x288f35b66a7a6},{812,0x2bcee08710613},{812,0x3c560ae1ecdef},{812,0x3f3962b0a1de2},{812,0x40b954d283000},{812,0x4893089a1bca8},{812,0x50ffd44f4a73d},{812,0x512af71a982f8},{812,0x52032179817ba},{812,0x52099b70505c0},{812,0x6578d7ccaf0a1},{812,0x6866845b45d43},{812,0x7296f445e597a},{812,0x79eb62dec7f76},{812,0x862e4764d6d1a},{812,0x8fe79c8dce12d},{812,0x914b3b015f1c2},{812,0x941277e8812ec},{812,0xa3d5903a98036},{812,0xa53fc9631d10c},{812,0xaf94b6d37417a},{812,0xbf609ba0e6f22},{812,0xc5f75b44bf6fa},{812,0xcba339f72aa34},{812,0xcdddf9b54115c},{812,0xead4254345e56},{812,0xf1f795f3349e5},{812,0xf399fcab4f040},{812,0xf5a18504dfaac},{812,0xf97fbe76efadb},
{813,0x3da6a608b4a},{813,0x19df49934f6f},{813,0xad5ad71cc38c},{813,0xf448ef3db9b4},{813,0x1140edad902b5},{813,0x15f137346c31b},{813,0x26dfd9c561255},{813,0x288f35b66a7a6},{813,0x2923a10b2c885},{813,0x2bcee08710613},{813,0x3c560ae1ecdef},{813,0x52032179817ba},{813,0x52099b70505c0},{813,0x6578d7ccaf0a1},{813,0x6866845b45d43},{813,0x696786cffe22a},{813,0x7296f445e597a},{813,0x76e968fe9c6da},{813,0x79eb62dec7f76},{813,0x7aef95d5742fb},{813,0x80cbec267ac9a},{813,0x862e4764d6d1a},{813,0x8d205fa6ac003},{813,0x8e149930dcbf3},{813,0x8fe79c8dce12d},{813,0x941277e8812ec},{813,0x98fbc7f36644e},{813,0xa53fc9631d10c},{813,0xaf94b6d37417a},{813,0xcba339f72aa34},{813,0xcf2f141d56b17},{813,0xd322635597848},{813,0xe0036fd942873},{813,0xf5a18504dfaac},
{814,0xad5ad71cc38c},{814,0xc394be55d421},{814,0x14b0a3d89a9e8},{814,0x26dfd9c561255},{814,0x28338bc6654b8},{814,0x2923a10b2c885},{814,0x2bcee08710613},{814,0x3c560ae1ecdef},{814,0x3d969e3dbe723},{814,0x4e10743995aa7},{814,0x52099b70505c0},{814,0x6578d7ccaf0a1},{814,0x667c98a2e245e},{814,0x6866845b45d43},{814,0x696786cffe22a},{814,0x80cbec267ac9a},{814,0x85c95e1ca5ee4},{814,0x862e4764d6d1a},{814,0x8d205fa6ac003},{814,0x8e149930dcbf3},{814,0x941277e8812ec},{814,0x98fbc7f36644e},{814,0xa2c74e6af94d5},{814,0xa53fc9631d10c},{814,0xa8e8c0ae00ba7},{814,0xaf94b6d37417a},{814,0xc3ff20f022eb8},{814,0xc922c1b9d6f69},{814,0xcba339f72aa34},{814,0xcc8cdf4d2b7a1},{814,0xcf3cb1575efd8},{814,0xd322635597848},{814,0xe0036fd942873},{814,0xe26f1b2e1f542},{814,0xf5a18504dfaac},
{815,0xad5ad71cc38c},{815,0xc394be55d421},{815,0x14f8a8e45dfd9},{815,0x1dfedb8959173},{815,0x28338bc6654b8},{815,0x2923a10b2c885},{815,0x3167d867db78f},{815,0x3a9ebc2304d4a},{815,0x3befd70a55cc9},{815,0x3c560ae1ecdef},{815,0x496e97bef9481},{815,0x4cacd5c604a12},{815,0x53a3cccd50b20},{815,0x6866845b45d43},{815,0x696786cffe22a},{815,0x6efc0863b1dea},{815,0x7519b97b3c762},{815,0x85c95e1ca5ee4},{815,0x862e4764d6d1a},{815,0x8e149930dcbf3},{815,0x8f62930806199},{815,0x9a79b1d438a72},{815,0xa53fc9631d10c},{815,0xaf94b6d37417a},{815,0xcba339f72aa34},{815,0xcf3cb1575efd8},{815,0xd322635597848},{815,0xd48601c9288dd},{815,0xe0036fd942873},{815,0xec0850197f7f7},{815,0xf47f25835bf93},{815,0xf5a18504dfaac},
{816,0xc5802490c066},{816,0x1b7622bbe7954},{816,0x2923a10b2c885},{816,0x2c23d9169e4f2},{816,0x3a9ebc2304d4a},{816,0x3befd70a55cc9},{816,0x3c560ae1ecdef},{816,0x496e97bef9481},{816,0x5186a10a9d5e6},{816,0x539eee07d9cfb},{816,0x53a3cccd50b20},{816,0x6866845b45d43},{816,0x696786cffe22a},{816,0x6f40a0259d4c6},{816,0x6fb6b2a1bbc31},{816,0x7519b97b3c762},{816,0x85c95e1ca5ee4},{816,0x8a95f8925603e},{816,0x8e149930dcbf3},{816,0x8f62930806199},{816,0xa10f35dca4b19},{816,0xa53fc9631d10c},{816,0xaf94b6d37417a},{816,0xcba339f72aa34},{816,0xcf3cb1575efd8},{816,0xd322635597848},{816,0xdb781a0afdbc6},{816,0xe0036fd942873},{816,0xe8e1380ddae8c},{816,0xf0d4ea8f2f952},{816,0xf47f25835bf93},{816,0xff3ab9f03fd61},
{817,0x165281f2338a3},{817,0x1b7622bbe7954},{817,0x2099c3859ba05},{817,0x219bda7423fb8},{817,0x245706957c72b},{817,0x28fa04b4c65a5},{817,0x2923a10b2c885},{817,0x4132c13e74b36},{817,0x539eee07d9cfb},{817,0x57dc3acf20a56},{817,0x59dccccec1462},{817,0x68b1d13cddaff},{817,0x6c54137acdb78},{817,0x6f40a0259d4c6},{817,0x7519b97b3c762},{817,0x85c95e1ca5ee4},{817,0x8e149930dcbf3},{817,0x9dc86269165a8},{817,0xa53fc9631d10c},{817,0xaf94b6d37417a},{817,0xb0d330b7ea470},{817,0xb21aec128bde2},{817,0xc01bbecb9ad75},{817,0xc1ad74f109c7f},{817,0xe1cdc1895c719},{817,0xe73bb5a3cf69d},{817,0xea414aae4f403},{817,0xf0d4ea8f2f952},{817,0xf47f25835bf93},{817,0xfebd005868b23},{817,0xff3ab9f03fd61},
{818,0x747ddddf22a7},{818,0xf1f93c581e07},{818,0x112ee1287f7f2},{818,0x13697a1937882},{818,0x1b7622bbe7954},{818,0x1d613d76e903e},{818,0x245706957c72b},{818,0x2ae1051903b67},{818,0x3e4c795e50150},{818,0x4132c13e74b36},{818,0x457ca7922a5b1},{818,0x539eee07d9cfb},{818,0x5510325911307},{818,0x667afa252e8dc},{818,0x6c54137acdb78},{818,0x6dca59d03581f},{818,0x7345eeb767865},{818,0x7519b97b3c762},{818,0x778fd50b1d2e0},{818,0x85c95e1ca5ee4},{818,0x8aebcccceb3fb},{818,0x9509fca627ce1},{818,0xa53fc9631d10c},{818,0xa7e84be76e5d2},{818,0xa9a302841000f},{818,0xaf94b6d37417a},{818,0xb0d330b7ea470},{818,0xb68289e03aac0},{818,0xc149df5a1c5c3},{818,0xdba2111b845bd},{818,0xe1cdc1895c719},{818,0xe5c56f4e679f6},{818,0xe711c0da999b6},{818,0xe73bb5a3cf69d},{818,0xef603818d59cb},{818,0xf47f25835bf93},{818,0xf99e12ede255b},
{819,0x112ee1287f7f2},{819,0x13697a1937882},{819,0x1b7622bbe7954},{819,0x1e515ae15dc16},{819,0x2ae1051903b67},{819,0x4132c13e74b36},{819,0x539eee07d9cfb},{819,0x5adf53079d223},{819,0x61af3751aaf93},{819,0x667afa252e8dc},{819,0x6d0f36a5819cc},{819,0x6dca59d03581f},{819,0x6e6ef7471a2bf},{819,0x778fd50b1d2e0},{819,0x8aebcccceb3fb},{819,0xa53fc9631d10c},{819,0xaa257624a8834},{819,0xad0becb122683},{819,0xaf94b6d37417a},{819,0xb0d330b7ea470},{819,0xbc3dbfc2f8eee},{819,0xc628c51edb561},{819,0xccbdc44467ca5},{819,0xdadea1e83d411},{819,0xdae4826ebc2ab},{819,0xdba2111b845bd},{819,0xe68092791b849},{819,0xe73bb5a3cf69d},{819,0xe9ad7b9fdea30},{819,0xee50ed3bebc1d},{819,0xf1efaece18caf},{819,0xf3376a28ba621},{819,0xf47f25835bf93},
{820,0x1b7622bbe7954},{820,0x1e287cb7b35e5},{820,0x1e515ae15dc16},{820,0x2ae1051903b67},{820,0x30b41a510e9b7},{820,0x4132c13e74b36},{820,0x4ee1a87b481c1},{820,0x5adf53079d223},{820,0x667afa252e8dc},{820,0x6d0f36a5819cc},{820,0x6dca59d03581f},{820,0x778fd50b1d2e0},{820,0x7eb84080b6d12},{820,0x7f9ad43edcd9e},{820,0x8b07d87c5152b},{820,0x943182e183ba8},{820,0xa53fc9631d10c},{820,0xaa257624a8834},{820,0xad0becb122683},{820,0xb05400027197a},{820,0xb0d330b7ea470},{820,0xcd96a6972a14a},{820,0xdae4826ebc2ab},{820,0xdba2111b845bd},{820,0xe07034922ad6d},{820,0xe68092791b849},{820,0xe73bb5a3cf69d},{820,0xe7b1d3f90c11f},{820,0xee21607d31c11},{820,0xf1efaece18caf},{820,0xf3376a28ba621},{820,0xf47f25835bf93},
{821,0x1e287cb7b35e5},{821,0x1e515ae15dc16},{821,0x21aacb87e9888},{821,0x2ae1051903b67},{821,0x316f3d7bc280a},{821,0x4132c13e74b36},{821,0x4ca51307c3fe3},{821,0x4ceaebb809b8a},{821,0x4ee1a87b481c1},{821,0x5ff580df95c24},{821,0x61c892223d691},{821,0x667afa252e8dc},{821,0x6dca59d03581f},{821,0x748664a988d4f},{821,0x778fd50b1d2e0},{821,0x7eb84080b6d12},{821,0x7f9ad43edcd9e},{821,0x85a89cd59746a},{821,0x85e0abf650744},{821,0xaa257624a8834},{821,0xad0becb122683},{821,0xb0cb6df9a9a41},{821,0xb0d330b7ea470},{821,0xcd96a6972a14a},{821,0xd7e1d3230d9c3},{821,0xdae4826ebc2ab},{821,0xdba2111b845bd},{821,0xddf5e6d721cb4},{821,0xe68092791b849},{821,0xe73bb5a3cf69d},{821,0xee187cbe34059},{821,0xee21607d31c11},{821,0xf3376a28ba621},{821,0xf3db47d60b2da},{821,0xf47f25835bf93},{821,0xfae5ce4883ecd},
{822,0x1af6c93819717},{822,0x1e515ae15dc16},{822,0x213fc1a697e88},{822,0x24e1b967d6832},{822,0x2ae1051903b67},{822,0x2e4d5013c5710},{822,0x40df96667f23c},{822,0x4919d5556eb51},{822,0x4ceaebb809b8a},{822,0x4ee1a87b481c1},{822,0x4f9ccba5fc015},{822,0x5094210f053ad},{822,0x5ff580df95c24},{822,0x61c892223d691},{822,0x667afa252e8dc},{822,0x693efe1fe9e7c},{822,0x6dca59d03581f},{822,0x748664a988d4f},{822,0x778fd50b1d2e0},{822,0x7c838f4ff84fb},{822,0x7eb84080b6d12},{822,0x7edf0e37f9ffd},{822,0x82b18dddfbae6},{822,0x8bf7e7fa6f02a},{822,0x9b604aaaca626},{822,0xaa257624a8834},{822,0xb0d330b7ea470},{822,0xb174d5cfaf777},{822,0xc853044ee203f},{822,0xcd96a6972a14a},{822,0xd76fe2e16c074},{822,0xdae4826ebc2ab},{822,0xe2c75337da8e3},{822,0xe68092791b849},{822,0xeda6c000260fa},{822,0xf14bd120c7ff6},{822,0xf3376a28ba621},{822,0xf47f25835bf93},{822,0xfae5ce4883ecd},{822,0xfc6eb17a30612},
{823,0x2571051aa82a},{823,0x1b811e7aada41},{823,0x1e515ae15dc16},{823,0x1ff69aaac0de7},{823,0x213fc1a697e88},{823,0x24e1b967d6832},{823,0x2e4d5013c5710},{823,0x31d1616de42bf},{823,0x4aff52b01755f},{823,0x4ceaebb809b8a},{823,0x4e32a712ab4fc},{823,0x4ed809f9cd1d7},{823,0x4ee1a87b481c1},{823,0x5ff580df95c24},{823,0x61c892223d691},{823,0x667afa252e8dc},{823,0x693efe1fe9e7c},{823,0x7ae09ee164e45},{823,0x7b240ac5e9ff9},{823,0x7c838f4ff84fb},{823,0x7df1fb5577c2d},{823,0x7eb84080b6d12},{823,0x7edf0e37f9ffd},{823,0x8bf7e7fa6f02a},{823,0x8d09176bea176},{823,0xa06319c70a732},{823,0xaa257624a8834},{823,0xb0d330b7ea470},{823,0xb174d5cfaf777},{823,0xc483855578390},{823,0xc4ab54795e89d},{823,0xc853044ee203f},{823,0xcd96a6972a14a},{823,0xdf81894e94105},{823,0xe2c75337da8e3},{823,0xeae5285ba00bc},{823,0xeda6c000260fa},{823,0xf3376a28ba621},{823,0xf47f25835bf93},{823,0xfae5ce4883ecd},{823,0xfc6eb17a30612},{823,0xfdb24d0c7c494},
{824,0x5394e2236462},{824,0x691b811a221f},{824,0xb64fd5569f32},{824,0x1b811e7aada41},{824,0x1ff69aaac0de7},{824,0x28f9edfbd341f},{824,0x4498a9eaef625},{824,0x47277c260cc2a},{824,0x4ceaebb809b8a},{824,0x4ed809f9cd1d7},{824,0x4ee1a87b481c1},{824,0x54994fd7d3436},{824,0x5cdfbad057049},{824,0x61c892223d691},{824,0x667afa252e8dc},{824,0x76a702bf8a15e},{824,0x7b240ac5e9ff9},{824,0x7df1fb5577c2d},{824,0x7eb84080b6d12},{824,0x8bf7e7fa6f02a},{824,0x8d09176bea176},{824,0x96c613bb5feb7},{824,0x973198e4ee163},{824,0x9fbf3c19b9a79},{824,0xaa257624a8834},{824,0xb0d330b7ea470},{824,0xb174d5cfaf777},{824,0xbb1015248700a},{824,0xbe3546c6998d3},{824,0xbe57d622448c0},{824,0xc483855578390},{824,0xcae3dc81d849a},{824,0xcd96a6972a14a},{824,0xd91522aacf245},{824,0xdf81894e94105},{824,0xe2c75337da8e3},{824,0xeae5285ba00bc},{824,0xfae5ce4883ecd},{824,0xfc6eb17a30612},{824,0xfdb24d0c7c494},
{825,0x691b811a221f},{825,0x23d2b25dda26f},{825,0x24975e1127a03},{825,0x28f9edfbd341f},{825,0x3488380017c9c},{825,0x3cdc87896869f},{825,0x3f3b3a3ad4151},{825,0x45da48c19ac3b},{825,0x4a59295db3f09},{825,0x4ceaebb809b8a},{825,0x5759f179e9cff},{825,0x61c892223d691},{825,0x61c8f73bc9e74},{825,0x667afa252e8dc},{825,0x698fb2103de2a},{825,0x749a9bb19b058},{825,0x7b240ac5e9ff9},{825,0x7eb84080b6d12},{825,0x8bf7e7fa6f02a},{825,0x9b604aaaca626},{825,0x9fbf3c19b9a79},{825,0xaa257624a8834},{825,0xb0d330b7ea470},{825,0xb174d5cfaf777},{825,0xbe3546c6998d3},{825,0xbe57d622448c0},{825,0xca1f30ce8ad06},{825,0xcae3dc81d849a},{825,0xcc8dac0ed9a34},{825,0xcd96a6972a14a},{825,0xeef5e1f90ac34},{825,0xf689e196e2a62},{825,0xfdb24d0c7c494},
{826,0x691b811a221f},{826,0x11a3409af170d},{826,0x24975e1127a03},{826,0x28f9edfbd341f},{826,0x3488380017c9c},{826,0x3cdc87896869f},{826,0x42ecd46615234},{826,0x43f56e0018fa4},{826,0x4a59295db3f09},{826,0x5759f179e9cff},{826,0x585b971b2552a},{826,0x61c8f73bc9e74},{826,0x6425925995d9b},{826,0x67f4415571161},{826,0x698fb2103de2a},{826,0x7b240ac5e9ff9},{826,0x7eb84080b6d12},{826,0x816c992779c98},{826,0x8bf7e7fa6f02a},{826,0x968336cd643bb},{826,0x9fbf3c19b9a79},{826,0xa084b200201d3},{826,0xa5eace64b0e3f},{826,0xb3ca3d9b482b8},{826,0xbb599119c1134},{826,0xbe3546c6998d3},{826,0xc1c97c81665ec},{826,0xcd96a6972a14a},{826,0xeef5e1f90ac34},{826,0xf689e196e2a62},{826,0xfd13f60027402},{826,0xfdb24d0c7c494},
{827,0x691b811a221f},{827,0x11a3409af170d},{827,0x24975e1127a03},{827,0x28f9edfbd341f},{827,0x2d9dda726972b},{827,0x347e990a6da06},{827,0x35f36130f432a},{827,0x43f56e0018fa4},{827,0x4a59295db3f09},{827,0x5356ea95e64a5},{827,0x573f5ddba4e52},{827,0x5759f179e9cff},{827,0x60c3d83b2bdbe},{827,0x60f5a495b19aa},{827,0x61c8f73bc9e74},{827,0x67f4415571161},{827,0x69d14da2642ab},{827,0x7eb84080b6d12},{827,0x8bf7e7fa6f02a},{827,0x98f15b2f8ff34},{827,0x9fbf3c19b9a79},{827,0xa084b200201d3},{827,0xb2bf839f34cb4},{827,0xbb599119c1134},{827,0xbe3546c6998d3},{827,0xc0b0721939201},{827,0xc495bf16f25ef},{827,0xcd96a6972a14a},{827,0xd3ae892766769},{827,0xdc29af0c24827},{827,0xeef5e1f90ac34},{827,0xf689e196e2a62},{827,0xfbef552e2bb3f},
{828,0x11c2eaabe7d7},{828,0x79ab299f2935},{828,0x24975e1127a03},{828,0x27ad35aac176b},{828,0x28f9edfbd341f},{828,0x347e990a6da06},{828,0x46b8544c36d26},{828,0x4819b90fa75a2},{828,0x4a59295db3f09},{828,0x5759f179e9cff},{828,0x57fdcf273a9b8},{828,0x60f5a495b19aa},{828,0x61c8f73bc9e74},{828,0x622b4d1570a3e},{828,0x69d14da2642ab},{828,0x81aa46001dbc3},{828,0x8bf7e7fa6f02a},{828,0x8df7d8486e177},{828,0x95843d50a8234},{828,0x9fbf3c19b9a79},{828,0xb71c438aac344},{828,0xbe3546c6998d3},{828,0xc3f39e944d5b4},{828,0xcd96a6972a14a},{828,0xcf04c4d8d2764},{828,0xdcf0702acf707},{828,0xdd532b1e02ab4},{828,0xeef5e1f90ac34},{828,0xf689e196e2a62},{828,0xfbef552e2bb3f},{828,0xfe4a4d97eb44f},
{829,0x55b424be5fce},{829,0x59c09156980f},{829,0x789afd569a70},{829,0x1378cc49748df},{829,0x28b8466821ccd},{829,0x28f9edfbd341f},{829,0x319f56032979c},{829,0x46b8544c36d26},{829,0x4819b90fa75a2},{829,0x5759f179e9cff},{829,0x60f5a495b19aa},{829,0x61c8f73bc9e74},{829,0x622b4d1570a3e},{829,0x72a8e4e12bf3b},{829,0x86355a92198e7},{829,0x8ad82fd368b76},{829,0x8bf7e7fa6f02a},{829,0x9866de0a4e2ec},{829,0x9fbf3c19b9a79},{829,0xae727ce1eea74},{829,0xb6b82cb536cfe},{829,0xb71c438aac344},{829,0xbeba911577c6d},{829,0xc3f39e944d5b4},{829,0xcd96a6972a14a},{829,0xcf04c4d8d2764},{829,0xda353ce0d98c9},{829,0xdd532b1e02ab4},{829,0xdde684fe8f3c9},{829,0xeef5e1f90ac34},
{830,0x8b83b704533f},{830,0x20723f7e957ea},{830,0x28f9edfbd341f},{830,0x2ab85e31f6d30},{830,0x46b8544c36d26},{830,0x54b84f5956d21},{830,0x60f5a495b19aa},{830,0x622b4d1570a3e},{830,0x643bc140edba3},{830,0x65016b2d8ae1d},{830,0x72a8e4e12bf3b},{830,0x8370397d313f4},{830,0x8ad82fd368b76},{830,0x8bf7e7fa6f02a},{830,0x9e970b401ff72},{830,0x9fbf3c19b9a79},{830,0xac376b3549660},{830,0xb9330dbb1e014},{830,0xbeba911577c6d},{830,0xcc3541d3b98ce},{830,0xcd96a6972a14a},{830,0xcdd580a0239ba},{830,0xcf04c4d8d2764},{830,0xda353ce0d98c9},{830,0xe66e337bccfff},{830,0xea53b840149a0},{830,0xeef5e1f90ac34},
{831,0x8b83b704533f},{831,0x28f9edfbd341f},{831,0x2ab85e31f6d30},{831,0x3f81eaf3d45e2},{831,0x467a03d487c38},{831,0x53105d8ac4cf1},{831,0x563513bc8240a},{831,0x60f5a495b19aa},{831,0x622b4d1570a3e},{831,0x65016b2d8ae1d},{831,0x6bd528075b6ac},{831,0x70b8457396d17},{831,0x980066daca1fc},{831,0x9fbf3c19b9a79},{831,0xb12f84cf1f087},{831,0xb9330dbb1e014},{831,0xbce708e639bd5},{831,0xbeba911577c6d},{831,0xc2c6d2bf1f579},{831,0xcc3541d3b98ce},{831,0xcd96a6972a14a},{831,0xcf04c4d8d2764},{831,0xde4644481a6bf},{831,0xe1b256f23c49e},{831,0xeef5e1f90ac34},{831,0xffa57fa9fb1a9},{831,0xfffc8d3f9ef10},
{832,0xaf688fbbbd62},{832,0xe1883dcdce0f},{832,0x153b491374160},{832,0x28f9edfbd341f},{832,0x3f81eaf3d45e2},{832,0x467a03d487c38},{832,0x563513bc8240a},{832,0x622b4d1570a3e},{832,0x6bd528075b6ac},{832,0x71167ddb78a1a},{832,0x7d15d9f81d61d},{832,0x88e577501e4af},{832,0x8abf6456ad1ce},{832,0x8bf7e7fa6f02a},{832,0x91bc08eac9a41},{832,0x9fbf3c19b9a79},{832,0xb143076c6c7f9},{832,0xb9330dbb1e014},{832,0xbeba911577c6d},{832,0xcc3541d3b98ce},{832,0xcf04c4d8d2764},{832,0xde4644481a6bf},{832,0xe1b256f23c49e},{832,0xe214d780252b4},{832,0xea1db8f57b1f3},{832,0xeef5e1f90ac34},{832,0xf48faadad142b},{832,0xffa57fa9fb1a9},{832,0xfffc8d3f9ef10},
{833,0xa7cecd61b07},{833,0x234a352626a2},{833,0x590d55f9f1da},{833,0xe1883dcdce0f},{833,0x153b491374160},{833,0x1d3b43c56b533},{833,0x255918ea5623c},{833,0x28f9edfbd341f},{833,0x63a5c8cbfd712},{833,0x688ecf5e3ade4},{833,0x698fa1a01be07},{833,0x76178abb3780b},{833,0x7b76d002d82ff},{833,0x8bf7e7fa6f02a},{833,0x9fbf3c19b9a79},{833,0xa6c3bf7ccbda5},{833,0xa88121c313139},{833,0xb143076c6c7f9},{833,0xb9330dbb1e014},{833,0xcb8cc95cd69ef},{833,0xcc3541d3b98ce},{833,0xcf04c4d8d2764},{833,0xe1b256f23c49e},{833,0xeea7dc2ed0ce2},{833,0xeef5e1f90ac34},{833,0xf1277519e522f},{833,0xf48faadad142b},
{834,0x234a352626a2},{834,0x2a20c368d495},{834,0x76029551f48b},{834,0x1351a9e77da0a},{834,0x13b86ea515422},{834,0x1d3b43c56b533},{834,0x240147986df7f},{834,0x28f9edfbd341f},{834,0x2a12d3b81a724},{834,0x30e69091eafb3},{834,0x34b0e5495e4f4},{834,0x36d7926b6d4cb},{834,0x48c45ead07102},{834,0x4af3fddfbaee8},{834,0x5ced6e443fd8e},{834,0x63a5c8cbfd712},{834,0x6cf68e586df1b},{834,0x7b76d002d82ff},{834,0x7da5d54572c24},{834,0x8bf7e7fa6f02a},{834,0x9fbf3c19b9a79},{834,0xa3d00432cb08e},{834,0xa86994a220b90},{834,0xabc258aba2d0c},{834,0xace21497bfc99},{834,0xb9330dbb1e014},{834,0xc6d5fc8c18dda},{834,0xe1b256f23c49e},{834,0xeea7dc2ed0ce2},{834,0xeef5e1f90ac34},
{835,0x429e80c0f2},{835,0x234a352626a2},{835,0x2a20c368d495},{835,0x76029551f48b},{835,0x1351a9e77da0a},{835,0x13b86ea515422},{835,0x1bed0588c08ec},{835,0x22a9764685cc2},{835,0x233f16de49e95},{835,0x240147986df7f},{835,0x28f9edfbd341f},{835,0x2a12d3b81a724},{835,0x30e69091eafb3},{835,0x344eb36097b49},{835,0x34b0e5495e4f4},{835,0x36d7926b6d4cb},{835,0x4561c71f5c960},{835,0x4af3fddfbaee8},{835,0x51c21f4e1a0aa},{835,0x6a5e2353bb096},{835,0x776f5c0d1fac8},{835,0x7b76d002d82ff},{835,0x8bf7e7fa6f02a},{835,0x91bc08eac9a41},{835,0x96532a68fb9c3},{835,0x9fbf3c19b9a79},{835,0xa3d00432cb08e},{835,0xabc258aba2d0c},{835,0xace21497bfc99},{835,0xb5a3fa4119359},{835,0xc0d12cca9bcda},{835,0xc3f38a0822d89},{835,0xc6d5fc8c18dda},{835,0xc7a4e9a46c569},{835,0xcadd7081d1611},{835,0xcb88b86878c39},{835,0xcd5c1d5256ca0},{835,0xe1b256f23c49e},{835,0xeef5e1f90ac34},{835,0xf62b0b257c0d1},
{836,0x11c669d373ca},{836,0x76029551f48b},{836,0x13b86ea515422},{836,0x17fac5e4ac960},{836,0x22a9764685cc2},{836,0x233f16de49e95},{836,0x239f15afa75d4},{836,0x240147986df7f},{836,0x28f9edfbd341f},{836,0x344eb36097b49},{836,0x36d7926b6d4cb},{836,0x44fe5111880be},{836,0x46f50ab786e50},{836,0x5073e1116f463},{836,0x59914100610cc},{836,0x6a5e2353bb096},{836,0x776f5c0d1fac8},{836,0x8bf7e7fa6f02a},{836,0x91bc08eac9a41},{836,0xa9f304b622a5b},{836,0xaab19b2d696e9},{836,0xabc9d7e2949c1},{836,0xace21497bfc99},{836,0xbc8f3afefccd6},{836,0xbd6c52d8cd026},{836,0xc3f38a0822d89},{836,0xcadd7081d1611},{836,0xcb88b86878c39},{836,0xce78a67e3cdf8},{836,0xeef5e1f90ac34},{836,0xf62b0b257c0d1},
{837,0x11c669d373ca},{837,0x34ce0078d97a},{837,0x76029551f48b},{837,0x7cd1be0625fe},{837,0x13b86ea515422},{837,0x233f16de49e95},{837,0x240147986df7f},{837,0x28f9edfbd341f},{837,0x29608ce00ea73},{837,0x344eb36097b49},{837,0x36d7926b6d4cb},{837,0x37f77c59ad138},{837,0x5073e1116f463},{837,0x532c4869a30d9},{837,0x61f7b22a0e0b1},{837,0x74bfb9694f54e},{837,0x776f5c0d1fac8},{837,0x81302569f3082},{837,0x837853eedbaca},{837,0x8a33b58cc90f6},{837,0x8bf7e7fa6f02a},{837,0x94ccdd0609e09},{837,0x9af5765848d42},{837,0x9e8b74f2e3bb4},{837,0xaab19b2d696e9},{837,0xac55f63d2a32d},{837,0xb09e2b85cc05a},{837,0xb428c9d54fcf1},{837,0xbc8f3afefccd6},{837,0xc01ee5f290029},{837,0xc3f38a0822d89},{837,0xcadd7081d1611},{837,0xcb88b86878c39},{837,0xd2a1f47d1fa4b},{837,0xdd0f4a96cf72d},{837,0xe9eaa17c2468f},{837,0xeef5e1f90ac34},{837,0xfdf37056e494d},
{838,0x904842a1a5e},{838,0xd6576fec714},{838,0x11c669d373ca},{838,0x7cd1be0625fe},{838,0x240147986df7f},{838,0x28f9edfbd341f},{838,0x29608ce00ea73},{838,0x344eb36097b49},{838,0x36d7926b6d4cb},{838,0x5073e1116f463},{838,0x532c4869a30d9},{838,0x61f7b22a0e0b1},{838,0x74bfb9694f54e},{838,0x776f5c0d1fac8},{838,0x78a0485c1d09d},{838,0x81302569f3082},{838,0x837853eedbaca},{838,0x8bf7e7fa6f02a},{838,0x9e8b74f2e3bb4},{838,0xaab19b2d696e9},{838,0xac55f63d2a32d},{838,0xad6e32f255605},{838,0xb02acab741521},{838,0xb09e2b85cc05a},{838,0xb9371af3f337f},{838,0xc3f38a0822d89},{838,0xc4f5ac28a9cbb},{838,0xca3a7a2bcdff2},{838,0xcadd7081d1611},{838,0xcb88b86878c39},{838,0xd0816a4f7925b},{838,0xd2a1f47d1fa4b},{838,0xe9eaa17c2468f},{838,0xeef5e1f90ac34},{838,0xf62b0b257c0d1},{838,0xf69834b7067d1},{838,0xfdf37056e494d},
{839,0x904842a1a5e},{839,0xf95f0691d6f},{839,0x60977cc79896},{839,0xe23e57dd369f},{839,0x13f9d313a2c63},{839,0x28f9edfbd341f},{839,0x30707ec1ecce5},{839,0x344eb36097b49},{839,0x36d7926b6d4cb},{839,0x410420252deaf},{839,0x61f7b22a0e0b1},{839,0x72c8b63deb555},{839,0x74bfb9694f54e},{839,0x7ff2cee5c1ae2},{839,0x837853eedbaca},{839,0x8bf7e7fa6f02a},{839,0x9427f19fcc03f},{839,0x96e39de31f55b},{839,0xaa3717dc4b874},{839,0xab692eabd1b7e},{839,0xac0fe70fdf677},{839,0xac32eea684cd2},{839,0xac55f63d2a32d},{839,0xaff59140794ff},{839,0xb02acab741521},{839,0xb3d1b55a8c44d},{839,0xb765a9c0cc8b7},{839,0xc3f38a0822d89},{839,0xc4f5ac28a9cbb},{839,0xca3a7a2bcdff2},{839,0xcb88b86878c39},{839,0xd0816a4f7925b},{839,0xe2f0c8e45d6ec},{839,0xeef5e1f90ac34},{839,0xf62b0b257c0d1},{839,0xf69834b7067d1},
{840,0x904842a1a5e},{840,0xf95f0691d6f},{840,0x13f6e33dca25},{840,0x4eaa2bdcb447},{840,0xe23e57dd369f},{840,0x22f761717c97b},{840,0x28f9edfbd341f},{840,0x30707ec1ecce5},{840,0x344eb36097b49},{840,0x36d7926b6d4cb},{840,0x3af8c29ed868a},{840,0x3dfe30e7c6fda},{840,0x40b9dd2b1a4f6},{840,0x410420252deaf},{840,0x449d344249e47},{840,0x61f7b22a0e0b1},{840,0x704a70b8555fd},{840,0x816d4ca431690},{840,0x825e0d1a6cf38},{840,0x837853eedbaca},{840,0x85f55b7018586},{840,0x871de62d6e27d},{840,0x88f6a1b543ad8},{840,0x8bf7e7fa6f02a},{840,0x8ffc60cb8a922},{840,0x9427f19fcc03f},{840,0x96e39de31f55b},{840,0xa9534f4af375b},{840,0xac0fe70fdf677},{840,0xb02acab741521},{840,0xb765a9c0cc8b7},{840,0xba38c9040cc33},{840,0xca3a7a2bcdff2},{840,0xcb88b86878c39},{840,0xd6c85a73244c4},{840,0xdb5b8d54cb3fd},{840,0xe2407534748ce},{840,0xe79606147db88},{840,0xe8f3556eb4190},{840,0xe8f9e105e8de7},{840,0xeef5e1f90ac34},
{841,0x8591ccb5cb5},{841,0x29dba16529b3},{841,0x4eaa2bdcb447},{841,0x14f30f5662394},{841,0x22f761717c97b},{841,0x24b032a942cc6},{841,0x25f8a7b6a7ecd},{841,0x28f9edfbd341f},{841,0x2a298e9e41a7c},{841,0x30707ec1ecce5},{841,0x36d7926b6d4cb},{841,0x56a7aaa1de04e},{841,0x61f7b22a0e0b1},{841,0x7554a3e2fcc8c},{841,0x757729efa8dc4},{841,0x816d4ca431690},{841,0x825e0d1a6cf38},{841,0x837853eedbaca},{841,0x88f6a1b543ad8},{841,0x8ffc60cb8a922},{841,0x9427f19fcc03f},{841,0xa9534f4af375b},{841,0xac0fe70fdf677},{841,0xacbf0d011a63e},{841,0xb2dc6491a81cc},{841,0xb765a9c0cc8b7},{841,0xca3a7a2bcdff2},{841,0xd176792bf3e34},{841,0xd6c85a73244c4},{841,0xdb5b8d54cb3fd},{841,0xe2407534748ce},{841,0xebf49bb3df6e2},{841,0xeef5e1f90ac34},{841,0xef1b3cfd5b81b},{841,0xefc90ade77adc},
{842,0x4eaa2bdcb447},{842,0x9753582a0779},{842,0xb8fbbf05f4bc},{842,0x15ff44c5456f1},{842,0x165c3007bb890},{842,0x22f761717c97b},{842,0x24b032a942cc6},{842,0x25f8a7b6a7ecd},{842,0x27794ad93d976},{842,0x2a298e9e41a7c},{842,0x30707ec1ecce5},{842,0x31fdc0cb55415},{842,0x4be4be55f6790},{842,0x5414434c0f3c8},{842,0x55f884b0a3087},{842,0x56a7aaa1de04e},{842,0x64e87d0fe8d9f},{842,0x7554a3e2fcc8c},{842,0x8078f488b2fa0},{842,0x816d4ca431690},{842,0x837853eedbaca},{842,0x8851a0b548ea3},{842,0x88f6a1b543ad8},{842,0x9427f19fcc03f},{842,0xa9534f4af375b},{842,0xacbf0d011a63e},{842,0xb2dc6491a81cc},{842,0xd6c85a73244c4},{842,0xd71b983f7d96f},{842,0xdb5b8d54cb3fd},{842,0xdfef829f3219a},{842,0xe2407534748ce},{842,0xea73f89149c39},{842,0xebf49bb3df6e2},{842,0xec7e6940a7490},{842,0xeef5e1f90ac34},{842,0xef1b3cfd5b81b},
{843,0x4eaa2bdcb447},{843,0x8c6a7c6f1bf7},{843,0x129f8a187fd72},{843,0x165c3007bb890},{843,0x22f761717c97b},{843,0x24b032a942cc6},{843,0x26b8f947f2c22},{843,0x2a7a911e68ec8},{843,0x2c4b1f637ad1d},{843,0x30707ec1ecce5},{843,0x4121d20a0eed2},{843,0x4be4be55f6790},{843,0x500a7f7f06949},{843,0x555141937a50e},{843,0x56a7aaa1de04e},{843,0x59644266c9f6a},{843,0x5cc387acf1d26},{843,0x611643d65b393},{843,0x6bc64b9d75749},{843,0x7554a3e2fcc8c},{843,0x781e471df480f},{843,0x8078f488b2fa0},{843,0x816d4ca431690},{843,0x837853eedbaca},{843,0x88f6a1b543ad8},{843,0x89b6f3468e82c},{843,0x8fc5dddfa4280},{843,0x9b2a5c4041e4b},{843,0xa9534f4af375b},{843,0xacbf0d011a63e},{843,0xb2dc6491a81cc},{843,0xb6f5daf26c590},{843,0xba6e03d9b61ca},{843,0xca8e6ce30e54d},{843,0xd6c85a73244c4},{843,0xd71b983f7d96f},{843,0xdb5b8d54cb3fd},{843,0xe1e29fff07d21},{843,0xe2407534748ce},{843,0xe772b24c1e6e7},{843,0xeb344a229498e},{843,0xebf49bb3df6e2},{843,0xeef5e1f90ac34},{843,0xef1b3cfd5b81b},{843,0xf9f27d85dac4f},{843,0xfdfc4152e36ce},
{844,0xf62f6461b974},{844,0x165c3007bb890},{844,0x16ab5d68570ae},{844,0x24b032a942cc6},{844,0x26b8f947f2c22},{844,0x2a7a911e68ec8},{844,0x3120772ed9010},{844,0x4121d20a0eed2},{844,0x4be4be55f6790},{844,0x555141937a50e},{844,0x57d7cd7e9b37d},{844,0x5946e1e985350},{844,0x59644266c9f6a},{844,0x66a9057d13f10},{844,0x6ae51b0e16a57},{844,0x7bf0f26226a09},{844,0x816d4ca431690},{844,0x88f6a1b543ad8},{844,0x8fc5dddfa4280},{844,0x9b2a5c4041e4b},{844,0x9c3193cb4ee10},{844,0xb2dc6491a81cc},{844,0xba1575ebec233},{844,0xba6e03d9b61ca},{844,0xc195bfa7ae7f3},{844,0xca8e6ce30e54d},{844,0xcc58abf3960b1},{844,0xd6c85a73244c4},{844,0xd86c52f245c4d},{844,0xd9d830046988b},{844,0xdb5b8d54cb3fd},{844,0xe87eee7e31a9e},{844,0xeb344a229498e},{844,0xef1b3cfd5b81b},{844,0xfdfc4152e36ce},
{845,0x3de1ab1997a5},{845,0xf62f6461b974},{845,0x16ab5d68570ae},{845,0x1f38da229c28e},{845,0x24b032a942cc6},{845,0x263d3887f6afa},{845,0x26b8f947f2c22},{845,0x28df61ad53e3a},{845,0x2a7a911e68ec8},{845,0x3a9399939ed77},{845,0x3e829ac267bd0},{845,0x4121d20a0eed2},{845,0x4be4be55f6790},{845,0x55ee5904a1860},{845,0x57d7cd7e9b37d},{845,0x5946e1e985350},{845,0x59644266c9f6a},{845,0x66a9057d13f10},{845,0x6ae51b0e16a57},{845,0x6eb85563d2f0f},{845,0x740b2910a2ad0},{845,0x817372085758b},{845,0x8851a0b548ea3},{845,0x88f6a1b543ad8},{845,0x89e923204009a},{845,0x943b6938a62cb},{845,0x9b2a5c4041e4b},{845,0xa2dbb1f18c99e},{845,0xaee9c93097395},{845,0xb2dc6491a81cc},{845,0xba1575ebec233},{845,0xba6e03d9b61ca},{845,0xbe3671628f487},{845,0xc195bfa7ae7f3},{845,0xd1ba221989d10},{845,0xd1e0eed746962},{845,0xd99130d391f70},{845,0xe20c9f1e929dd},{845,0xea6608e29b24c},{845,0xeb344a229498e},{845,0xef1b3cfd5b81b},{845,0xf4ebf04494a59},
{846,0x3e94744e6b4c},{846,0x8fa0c742ccd0},{846,0xe298f2c9e874},{846,0xf62f6461b974},{846,0x109cf15098da2},{846,0x2670cd5160449},{846,0x26b8f947f2c22},{846,0x283167f97dbcc},{846,0x28df61ad53e3a},{846,0x2a7a911e68ec8},{846,0x3f48636346fcf},{846,0x4121d20a0eed2},{846,0x4533ac8c2f1b0},{846,0x491b8c776adc9},{846,0x4be4be55f6790},{846,0x5295d01fbdd70},{846,0x55ee5904a1860},{846,0x57476c9e9fccf},{846,0x57d7cd7e9b37d},{846,0x5946e1e985350},{846,0x59644266c9f6a},{846,0x5ff7f3b34c930},{846,0x66a9057d13f10},{846,0x6ae51b0e16a57},{846,0x70673799ef72a},{846,0x71a6b2c385002},{846,0x88f6a1b543ad8},{846,0x8ecf7037c0250},{846,0x956d5dc95eecf},{846,0x9b2a5c4041e4b},{846,0xa1860bd097e85},{846,0xaee9c93097395},{846,0xb2dc6491a81cc},{846,0xb653de1575f8c},{846,0xba1575ebec233},{846,0xbe3671628f487},{846,0xc195bfa7ae7f3},{846,0xd1ba221989d10},{846,0xd1e0eed746962},{846,0xd99130d391f70},{846,0xdc7d0e65715ce},{846,0xdeb41639aeeed},{846,0xeb344a229498e},
{847,0x3e94744e6b4c},{847,0x8621c4199207},{847,0x8fa0c742ccd0},{847,0xe298f2c9e874},{847,0xe5b829a2092f},{847,0xf62f6461b974},{847,0x26b8f947f2c22},{847,0x283167f97dbcc},{847,0x28df61ad53e3a},{847,0x2a6f656511a30},{847,0x2a7a911e68ec8},{847,0x350099dbb1686},{847,0x3f48636346fcf},{847,0x4121d20a0eed2},{847,0x4b3d7d1bcb208},{847,0x4be4be55f6790},{847,0x4d430a386c71e},{847,0x4f3d473ada280},{847,0x5295d01fbdd70},{847,0x55ee5904a1860},{847,0x57d7cd7e9b37d},{847,0x5946e1e985350},{847,0x59644266c9f6a},{847,0x5c9f6ace68e40},{847,0x60cd94c8d114a},{847,0x6ae51b0e16a57},{847,0x6d5a1746db4f0},{847,0x6fcc86a9f45b9},{847,0x70673799ef72a},{847,0x7222f45bd660a},{847,0x88f6a1b543ad8},{847,0x8ecf7037c0250},{847,0x9b2a5c4041e4b},{847,0xa1860bd097e85},{847,0xa22b937cfb132},{847,0xa547a3a70e12c},{847,0xaee9c93097395},{847,0xba1575ebec233},{847,0xbe3671628f487},{847,0xc195bfa7ae7f3},{847,0xd1e0eed746962},{847,0xdbe3cc7613a0d},{847,0xdeb41639aeeed},{847,0xeb344a229498e},
{848,0x1759176f7d9b},{848,0x8621c4199207},{848,0xf62f6461b974},{848,0x1f6e62b0ea63d},{848,0x28df61ad53e3a},{848,0x2a6f656511a30},{848,0x350099dbb1686},{848,0x3b1135f2e02ac},{848,0x3b2a11dd840e0},{848,0x4121d20a0eed2},{848,0x47326e213daf8},{848,0x4be4be55f6790},{848,0x4d430a386c71e},{848,0x4d70e45c2c2f9},{848,0x5295d01fbdd70},{848,0x544214922fae8},{848,0x55ee5904a1860},{848,0x579a9d77135d8},{848,0x5946e1e985350},{848,0x5c9f6ace68e40},{848,0x65857a95277b6},{848,0x6ae51b0e16a57},{848,0x6d5a1746db4f0},{848,0x6fad23f94203d},{848,0x6fcc86a9f45b9},{848,0x70673799ef72a},{848,0x7e14c3bf4dba0},{848,0x8ecf7037c0250},{848,0x8ed10f4a35152},{848,0x926756f7ae8bc},{848,0x927fac76bf3eb},{848,0x9b2a5c4041e4b},{848,0xa22b937cfb132},{848,0xaee9c93097395},{848,0xc195bfa7ae7f3},{848,0xc7601883ddded},{848,0xc83df6e4d155d},{848,0xd1e0eed746962},{848,0xdeb41639aeeed},{848,0xea6608e29b24c},{848,0xeb344a229498e},{848,0xf395d4c779d8e},{848,0xfc408490fc7ee},
{849,0x1759176f7d9b},{849,0x413a33fe7b54},{849,0x8621c4199207},{849,0xa8c55396a17c},{849,0x1890784f0d8f8},{849,0x1f6e62b0ea63d},{849,0x28df61ad53e3a},{849,0x2f0148e1c6320},{849,0x38a10c10761aa},{849,0x3ac92221ed126},{849,0x3b1135f2e02ac},{849,0x3b2a11dd840e0},{849,0x3e1983fe778bf},{849,0x4121d20a0eed2},{849,0x42bee3b909f08},{849,0x43876819bd438},{849,0x442a2015a64e5},{849,0x47326e213daf8},{849,0x4be4be55f6790},{849,0x4d70e45c2c2f9},{849,0x508938a84ef28},{849,0x51c63c40ed829},{849,0x544214922fae8},{849,0x551836cb689a4},{849,0x55ee5904a1860},{849,0x56596a213dfbe},{849,0x56c47b3dda71c},{849,0x579a9d77135d8},{849,0x5c9f6ace68e40},{849,0x5eec0dfb0dd12},{849,0x64fcc10aa2198},{849,0x65857a95277b6},{849,0x6fcc86a9f45b9},{849,0x70673799ef72a},{849,0x825150694acfb},{849,0x83d8870911474},{849,0x8ecf7037c0250},{849,0x8ed10f4a35152},{849,0x926756f7ae8bc},{849,0x9b2a5c4041e4b},{849,0xaee9c93097395},{849,0xc195bfa7ae7f3},{849,0xd1e0eed746962},{849,0xd9b92083b2f75},{849,0xded1ac64ceaae},{849,0xdf1f27564b64b},{849,0xe274ce91fc3c0},{849,0xea6608e29b24c},{849,0xeb344a229498e},{849,0xec3cd13d0e491},{849,0xeea0d5b2a3f84},{849,0xf395d4c779d8e},{849,0xfc408490fc7ee},
{850,0x8621c4199207},{850,0xfdd5d90d320b},{850,0x115762b066028},{850,0x1890784f0d8f8},{850,0x1f6e62b0ea63d},{850,0x28df61ad53e3a},{850,0x2a4319862c0ec},{850,0x2d142c4143518},{850,0x3808e7e748c99},{850,0x3b2a11dd840e0},{850,0x3e1983fe778bf},{850,0x4121d20a0eed2},{850,0x42bee3b909f08},{850,0x442a2015a64e5},{850,0x47326e213daf8},{850,0x4be4be55f6790},{850,0x4d70e45c2c2f9},{850,0x501369741313c},{850,0x508938a84ef28},{850,0x544214922fae8},{850,0x551836cb689a4},{850,0x558347e805102},{850,0x55ee5904a1860},{850,0x5623e192efc0f},{850,0x56596a213dfbe},{850,0x565bf45b32957},{850,0x56c47b3dda71c},{850,0x572f8c5a76e7a},{850,0x5870bfb04c494},{850,0x5c9f6ace68e40},{850,0x60ce15ec857ec},{850,0x6200e0f45ca9f},{850,0x64fcc10aa2198},{850,0x65857a95277b6},{850,0x6fcc86a9f45b9},{850,0x70673799ef72a},{850,0x809ce080b5b0f},{850,0x8540fd73de586},{850,0x8ecf7037c0250},{850,0x9b2a5c4041e4b},{850,0xa4d8b47694574},{850,0xa5102c0ed1350},{850,0xb5fc43e5a0416},{850,0xb8a21f64de308},{850,0xd1e0eed746962},{850,0xd9b92083b2f75},{850,0xded1ac64ceaae},{850,0xdf1f27564b64b},{850,0xe274ce91fc3c0},{850,0xeb344a229498e},{850,0xf395d4c779d8e},
{851,0x74cc64868cbb},{851,0x8621c4199207},{851,0xfdd5d90d320b},{851,0x115762b066028},{851,0x1890784f0d8f8},{851,0x1f6e62b0ea63d},{851,0x2640ba46f5084},{851,0x3808e7e748c99},{851,0x3b2a11dd840e0},{851,0x4121d20a0eed2},{851,0x47326e213daf8},{851,0x4d5528900dc0b},{851,0x4d70e45c2c2f9},{851,0x5005a198d00a6},{851,0x501369741313c},{851,0x522abf0321612},{851,0x544214922fae8},{851,0x55b8d076534b1},{851,0x55ee5904a1860},{851,0x5623e192efc0f},{851,0x56596a213dfbe},{851,0x568ef2af8c36d},{851,0x5870bfb04c494},{851,0x5a88153f5a96a},{851,0x64fcc10aa2198},{851,0x6fcc86a9f45b9},{851,0x70673799ef72a},{851,0x79e618a1311f4},{851,0x93020d43062d3},{851,0x9395026fef937},{851,0x9aa184749d92d},{851,0x9b2a5c4041e4b},{851,0xab90f62592774},{851,0xbc6c780d5c995},{851,0xbeb8f27e6c86b},{851,0xc8223b18b2e6f},{851,0xd1e0eed746962},{851,0xd9b92083b2f75},{851,0xded1ac64ceaae},{851,0xe274ce91fc3c0},{851,0xf395d4c779d8e},{851,0xff64cd95e8588},
{852,0x115762b066028},{852,0x1f6e62b0ea63d},{852,0x3b2a11dd840e0},{852,0x3e3b2b21d72f9},{852,0x4121d20a0eed2},{852,0x459ebda8cb90e},{852,0x47326e213daf8},{852,0x501369741313c},{852,0x544214922fae8},{852,0x554dbf59b6d53},{852,0x55ee5904a1860},{852,0x5623e192efc0f},{852,0x56596a213dfbe},{852,0x576514e8c5229},{852,0x5870bfb04c494},{852,0x5a88153f5a96a},{852,0x5eb49662d0f36},{852,0x631a2a0ecebba},{852,0x64fcc10aa2198},{852,0x674b28079fd3b},{852,0x6ba2f084b4642},{852,0x6f716cd5e99c6},{852,0x710d9e62a60be},{852,0x7862b303c6a9e},{852,0x79e618a1311f4},{852,0x91cb504e05949},{852,0x93020d43062d3},{852,0x9aa184749d92d},{852,0xa1cdbb3024f1a},{852,0xab90f62592774},{852,0xb6a71179d1456},{852,0xbeb8f27e6c86b},{852,0xc2e9f0773d9ec},{852,0xd1e0eed746962},{852,0xd9b92083b2f75},{852,0xdf6c808664dad},{852,0xe274ce91fc3c0},{852,0xf395d4c779d8e},{852,0xfccb2f8d94a94},
{853,0xa19a3ffd981},{853,0x115762b066028},{853,0x269f4cf02401e},{853,0x27a97e6351a9c},{853,0x2a5ed5524a7da},{853,0x2ed4c6e960c9b},{853,0x4121d20a0eed2},{853,0x459ebda8cb90e},{853,0x47326e213daf8},{853,0x4ad9138e6f525},{853,0x501369741313c},{853,0x554dbf59b6d53},{853,0x5623e192efc0f},{853,0x56596a213dfbe},{853,0x576514e8c5229},{853,0x5a88153f5a96a},{853,0x5eb49662d0f36},{853,0x5fc26b24fe581},{853,0x674b28079fd3b},{853,0x79e618a1311f4},{853,0x91cb504e05949},{853,0x93020d43062d3},{853,0x9aa184749d92d},{853,0xa5635f732c81a},{853,0xae2d739996ada},{853,0xbeb8f27e6c86b},{853,0xcab1c7fbcf654},{853,0xd9b92083b2f75},{853,0xdf6c808664dad},{853,0xe274ce91fc3c0},{853,0xeb422808a3d05},{853,0xf395d4c779d8e},{853,0xfccb2f8d94a94},{853,0xfdbf8cfa4ea6b},
{854,0xa19a3ffd981},{854,0x5acc552a04c9},{854,0x70770ca1cb68},{854,0x72a1b8942c12},{854,0x115762b066028},{854,0x18b3230e339a1},{854,0x269f4cf02401e},{854,0x272194cd2596c},{854,0x28448d8bbdb3b},{854,0x2a3c2a9324731},{854,0x2a5ed5524a7da},{854,0x2b7b102c98c9b},{854,0x2db985fbf71b9},{854,0x2ed4c6e960c9b},{854,0x3bc53218154c0},{854,0x459ebda8cb90e},{854,0x47326e213daf8},{854,0x4da18f5a4d957},{854,0x501369741313c},{854,0x554dbf59b6d53},{854,0x5623e192efc0f},{854,0x56596a213dfbe},{854,0x5a88153f5a96a},{854,0x5eb49662d0f36},{854,0x5fc26b24fe581},{854,0x79e618a1311f4},{854,0x7c912dfce1ec4},{854,0x7d269aa553007},{854,0x820bfaeafeba8},{854,0x91cb504e05949},{854,0x93020d43062d3},{854,0x9409c61d63e67},{854,0xa8dd7fe0b959f},{854,0xbeb8f27e6c86b},{854,0xc562a81e16a74},{854,0xd9b92083b2f75},{854,0xdf23ce61a49f1},{854,0xe274ce91fc3c0},{854,0xf395d4c779d8e},{854,0xfdbf8cfa4ea6b},
{855,0xa19a3ffd981},{855,0x29bceaf7fd06},{855,0x15c3cb0859dfd},{855,0x18b3230e339a1},{855,0x272194cd2596c},{855,0x2b62bde976ac8},{855,0x459ebda8cb90e},{855,0x47326e213daf8},{855,0x49a637740306f},{855,0x516fb569eca6f},{855,0x548a1e1826beb},{855,0x554dbf59b6d53},{855,0x56596a213dfbe},{855,0x5da34d6761f07},{855,0x5fc26b24fe581},{855,0x61e1ce0f0fcde},{855,0x6918218adb3c9},{855,0x706048a6e7d6f},{855,0x7c401de3b54c0},{855,0x7e63043fedc30},{855,0x820bfaeafeba8},{855,0x881453f42c96d},{855,0x8d5bb4ca4fb7d},{855,0x8f681a3c8f5b7},{855,0x93020d43062d3},{855,0x946502ead3d30},{855,0xa5635f732c81a},{855,0xac113a027e5fb},{855,0xb661bbfb85303},{855,0xbeb8f27e6c86b},{855,0xc7601883ddded},{855,0xc80d6e3f9c13c},{855,0xc860cd1eaa69f},{855,0xd9b92083b2f75},{855,0xdf23ce61a49f1},{855,0xe274ce91fc3c0},{855,0xebe2a2ab3ea5f},{855,0xf395d4c779d8e},{855,0xfdbf8cfa4ea6b},{855,0xfea6098d294f7},
{856,0xa19a3ffd981},{856,0xf18ece107b0a},{856,0x18b3230e339a1},{856,0x272194cd2596c},{856,0x3c0a879661613},{856,0x459ebda8cb90e},{856,0x47326e213daf8},{856,0x49a637740306f},{856,0x4d08e41eba0fd},{856,0x4f3bc012e80e2},{856,0x548a1e1826beb},{856,0x554dbf59b6d53},{856,0x56596a213dfbe},{856,0x5e183dd9d840c},{856,0x5fc26b24fe581},{856,0x6918218adb3c9},{856,0x706048a6e7d6f},{856,0x793621c8f348b},{856,0x7c401de3b54c0},{856,0x7e63043fedc30},{856,0x881453f42c96d},{856,0x8d8b309b99620},{856,0x93020d43062d3},{856,0x946502ead3d30},{856,0x9cc21902c61db},{856,0xa5635f732c81a},{856,0xaf03adcf2a5b5},{856,0xb661bbfb85303},{856,0xbeb8f27e6c86b},{856,0xc1217f01c5918},{856,0xc3d435770cd11},{856,0xc860cd1eaa69f},{856,0xd0e34761a7859},{856,0xd6674c8f5afe4},{856,0xd9b92083b2f75},{856,0xe274ce91fc3c0},{856,0xe3102d0c7c885},{856,0xebe2a2ab3ea5f},{856,0xf395d4c779d8e},{856,0xfdbf8cfa4ea6b},
{857,0xa19a3ffd981},{857,0xd952d9deb955},{857,0xf18ece107b0a},{857,0xfdd49ec28285},{857,0x135972630774b},{857,0x18b3230e339a1},{857,0x1a0dce85b0040},{857,0x1acb16dfacb71},{857,0x272194cd2596c},{857,0x2af7acccda36a},{857,0x46bdf8907ab9d},{857,0x48f4a26b93716},{857,0x4f3bc012e80e2},{857,0x548a1e1826beb},{857,0x5e183dd9d840c},{857,0x5fc26b24fe581},{857,0x76421e759e1f0},{857,0x793621c8f348b},{857,0x881453f42c96d},{857,0x93020d43062d3},{857,0x946502ead3d30},{857,0x96605b584c7d1},{857,0xa366a3394c8ec},{857,0xa8d70950a90cd},{857,0xaf03adcf2a5b5},{857,0xb46e903eb7953},{857,0xb661bbfb85303},{857,0xc3d435770cd11},{857,0xc4525dd70261d},{857,0xd0e34761a7859},{857,0xe28ef9a5be692},{857,0xebe2a2ab3ea5f},{857,0xeef707dc3e0b2},{857,0xf395d4c779d8e},{857,0xfb7941267fda4},{857,0xfdbf8cfa4ea6b},
{858,0xa19a3ffd981},{858,0xfdd49ec28285},{858,0x130c0a4558608},{858,0x135972630774b},{858,0x1acb16dfacb71},{858,0x46bdf8907ab9d},{858,0x4b80facc250a9},{858,0x4f3bc012e80e2},{858,0x504b9d7078e14},{858,0x548a1e1826beb},{858,0x573968b841eb8},{858,0x5fc26b24fe581},{858,0x672dbb81f8a17},{858,0x76421e759e1f0},{858,0x793621c8f348b},{858,0x881453f42c96d},{858,0x8c2f29c799c7e},{858,0x93020d43062d3},{858,0x946502ead3d30},{858,0x96605b584c7d1},{858,0x97cbeee23c3c7},{858,0xa366a3394c8ec},{858,0xb7652c3609c21},{858,0xc3d435770cd11},{858,0xc4525dd70261d},{858,0xca8d288ee3d18},{858,0xd1909d1d65ba8},{858,0xd5b87d1593792},{858,0xd81a80412083e},{858,0xddb524e7bde0f},{858,0xdee7a4ad4b81e},{858,0xe28ef9a5be692},{858,0xebe2a2ab3ea5f},{858,0xec182b398ce0e},{858,0xeef707dc3e0b2},{858,0xf0dd214097f06},{858,0xf395d4c779d8e},{858,0xfb7941267fda4},
{859,0x92635f83ae7},{859,0xa19a3ffd981},{859,0xc7a9d41711f7},{859,0xf8d6271caa65},{859,0x130c0a4558608},{859,0x135972630774b},{859,0x1b48ab1beef25},{859,0x1ce51268b3b58},{859,0x26114a8611515},{859,0x2b50c6ec4f313},{859,0x2e5e598a78587},{859,0x314d45c813560},{859,0x4b80facc250a9},{859,0x573968b841eb8},{859,0x5fc26b24fe581},{859,0x660387ca1f3fa},{859,0x6bd5e81d04eb4},{859,0x793621c8f348b},{859,0x8881085597c29},{859,0x88f9f698a7fba},{859,0x8b87ec03338bc},{859,0x9115338455a33},{859,0xa1f8342f12b79},{859,0xa366a3394c8ec},{859,0xc3d435770cd11},{859,0xca8d288ee3d18},{859,0xd041a06e26adf},{859,0xd5b87d1593792},{859,0xddb524e7bde0f},{859,0xebe2a2ab3ea5f},{859,0xec182b398ce0e},{859,0xeef707dc3e0b2},{859,0xf0266a36aeae4},{859,0xf0dd214097f06},{859,0xf1d9e03262e30},{859,0xfb7941267fda4},
{860,0x92635f83ae7},{860,0xa19a3ffd981},{860,0xd624ca17a791},{860,0x135972630774b},{860,0x1b48ab1beef25},{860,0x1ce51268b3b58},{860,0x26114a8611515},{860,0x27786956d6340},{860,0x2e5e598a78587},{860,0x38c922a91b2df},{860,0x3d858b2076a53},{860,0x404482ed7db21},{860,0x5584dee00f9b3},{860,0x573968b841eb8},{860,0x5f9b823b41017},{860,0x5fc26b24fe581},{860,0x660387ca1f3fa},{860,0x793621c8f348b},{860,0x7f9e0a87230d5},{860,0x80db950f4585a},{860,0x9115338455a33},{860,0xa155d7a3dec4e},{860,0xa1f8342f12b79},{860,0xa366a3394c8ec},{860,0xbbd00b9e60365},{860,0xca8d288ee3d18},{860,0xebe2a2ab3ea5f},{860,0xf0266a36aeae4},{860,0xf0dd214097f06},{860,0xf45846ab23b98},{860,0xf97f5378b51ff},{860,0xfa74a9e9102e2},{860,0xfb7941267fda4},
{861,0x92635f83ae7},{861,0xa19a3ffd981},{861,0x9fd865182866},{861,0xac2e7f90b8a2},{861,0x135972630774b},{861,0x1b48ab1beef25},{861,0x1cb55e748c630},{861,0x1ce51268b3b58},{861,0x2494b8351287c},{861,0x26114a8611515},{861,0x30e9b9db2a42a},{861,0x3d858b2076a53},{861,0x497bbe7515410},{861,0x4ea3fb22ba7ea},{861,0x573968b841eb8},{861,0x5aa8d3490d162},{861,0x5b3fcc6806e13},{861,0x5e38d2ef2ee73},{861,0x5f1d7506493d3},{861,0x5f9b823b41017},{861,0x63fdadb72f8b4},{861,0x68acdb38e9aaa},{861,0x7d08db6c1c673},{861,0x7f9e0a87230d5},{861,0x80db950f4585a},{861,0x9178d53eab072},{861,0x999d01e3e6be1},{861,0xa1f8342f12b79},{861,0xa366a3394c8ec},{861,0xa3afe977784ce},{861,0xbbd00b9e60365},{861,0xbc053791b0e34},{861,0xc6790b329570b},{861,0xf0266a36aeae4},{861,0xf0dd214097f06},{861,0xf0e5ea385d5bc},{861,0xfb7941267fda4},{861,0xfd520d1bde3e6},
{862,0xa19a3ffd981},{862,0x331cce4d11fa},{862,0x9fd865182866},{862,0xac2e7f90b8a2},{862,0x135972630774b},{862,0x1b48ab1beef25},{862,0x1cb55e748c630},{862,0x1ce51268b3b58},{862,0x2494b8351287c},{862,0x2b50c6ec4f313},{862,0x2f6d3697963fa},{862,0x30e9b9db2a42a},{862,0x497bbe7515410},{862,0x5e38d2ef2ee73},{862,0x5f1d7506493d3},{862,0x5f9b823b41017},{862,0x68acdb38e9aaa},{862,0x6c7524fd324c6},{862,0x70e0db2742318},{862,0x83b228783e0d0},{862,0x999d01e3e6be1},{862,0xa1f8342f12b79},{862,0xacc4fe3cc0cd8},{862,0xafebf181c01e5},{862,0xb97d8bcfc19bc},{862,0xbc053791b0e34},{862,0xc6790b329570b},{862,0xc874c8f52bf7d},{862,0xc91de0ee1e105},{862,0xc9eb29d7137d9},{862,0xe91f24b264dae},{862,0xf0266a36aeae4},{862,0xf1de1f7f14439},{862,0xfb7941267fda4},
{863,0xa19a3ffd981},{863,0x288a6b326f65},{863,0xac2e7f90b8a2},{863,0x135972630774b},{863,0x1ce51268b3b58},{863,0x2494b8351287c},{863,0x2625fe7911e43},{863,0x2f6d3697963fa},{863,0x32b5dda10c502},{863,0x37282c1f7dcde},{863,0x3afae5c2a6ec5},{863,0x3ecd9f65d00ad},{863,0x42a05908f9294},{863,0x44ad1bb2f300f},{863,0x467312ac2247c},{863,0x46a0c9b6fe193},{863,0x4cfd10807e805},{863,0x5f9b823b41017},{863,0x68acdb38e9aaa},{863,0x83b228783e0d0},{863,0x8d046f46c78ec},{863,0x9b8f1184ece3a},{863,0x9f5d2698ec6aa},{863,0xaa8ebe990ea22},{863,0xafebf181c01e5},{863,0xbc053791b0e34},{863,0xc10a618403f7c},{863,0xc31b1dfa5b108},{863,0xc6790b329570b},{863,0xc874c8f52bf7d},{863,0xc91de0ee1e105},{863,0xc9eb29d7137d9},{863,0xe663434000aff},{863,0xe91f24b264dae},{863,0xfe1e16e20879e},
{864,0xa19a3ffd981},{864,0x288a6b326f65},{864,0xac2e7f90b8a2},{864,0x135972630774b},{864,0x14bfa5630bbba},{864,0x1ce51268b3b58},{864,0x1ebc62cd0bed2},{864,0x2494b8351287c},{864,0x27dd4592d9540},{864,0x297b29894633a},{864,0x3afae5c2a6ec5},{864,0x3e05d35b14244},{864,0x3ecd9f65d00ad},{864,0x42a05908f9294},{864,0x4e1885f27484b},{864,0x61362622421d0},{864,0x62ae5cb9eaf03},{864,0x73d7eb17b6cc2},{864,0x764f84d5d3aa7},{864,0x7a053e8711f19},{864,0x7bc509c7fa6c9},{864,0x83b228783e0d0},{864,0x8ab8ecbad53c1},{864,0x8ca54e75e28e0},{864,0x8d046f46c78ec},{864,0xbb11c9fc9634d},{864,0xbc053791b0e34},{864,0xc10a618403f7c},{864,0xc6790b329570b},{864,0xc9eb29d7137d9},{864,0xda61b5758ef1c},{864,0xde346f18b8103},{864,0xe0b10aab1c6e7},{864,0xe20728bbe12eb},{864,0xe8e034c68b027},{864,0xe91f24b264dae},{864,0xf739680a18578},{864,0xfe1e16e20879e},
{865,0x100bb10e298d},{865,0x2dc5f255b9c9},{865,0xf41344627c49},{865,0x135972630774b},{865,0x14bfa5630bbba},{865,0x2494b8351287c},{865,0x27dd4592d9540},{865,0x2f0e15c6b13ee},{865,0x3afae5c2a6ec5},{865,0x414f4ee1e940e},{865,0x46af58750cb32},{865,0x4e1885f27484b},{865,0x5e094286bc66d},{865,0x73d7eb17b6cc2},{865,0x7453c6520fb56},{865,0x7624f8a762fd8},{865,0x764f84d5d3aa7},{865,0x7a053e8711f19},{865,0x86c5fb034a979},{865,0x8ab8ecbad53c1},{865,0x8d046f46c78ec},{865,0x8d8194a55e17b},{865,0x9d56072e2b1e9},{865,0xab4fbac9be140},{865,0xbb11c9fc9634d},{865,0xbc053791b0e34},{865,0xc9eb29d7137d9},{865,0xca19fb580d98d},{865,0xcee9888c13965},{865,0xd3ae36d13bbce},{865,0xd3e7e74113af1},{865,0xd514c31b34695},{865,0xdde4a4ab13e09},{865,0xe0b10aab1c6e7},{865,0xe20728bbe12eb},{865,0xe91f24b264dae},{865,0xea0cf6bca15cc},{865,0xf524c8ebaec70},{865,0xfd298649954c7},{865,0xfe1e16e20879e},
{866,0x135972630774b},{866,0x14bfa5630bbba},{866,0x2494b8351287c},{866,0x2f556e635cff7},{866,0x3afae5c2a6ec5},{866,0x3c0f925600592},{866,0x3df18210df80d},{866,0x414f4ee1e940e},{866,0x46af58750cb32},{866,0x5019f3ed30cab},{866,0x5e094286bc66d},{866,0x6f55679d0f9ca},{866,0x73d7eb17b6cc2},{866,0x7453c6520fb56},{866,0x764f84d5d3aa7},{866,0x7a053e8711f19},{866,0x7b49f5ac3f8d2},{866,0x84f237275d415},{866,0x8d8194a55e17b},{866,0x980fd7572ad9b},{866,0xa996dad80099f},{866,0xab4fbac9be140},{866,0xabf4f19912e91},{866,0xad5b249917300},{866,0xbb59229941f56},{866,0xc22cdca7c9f86},{866,0xcee9888c13965},{866,0xd85b79ececf9a},{866,0xdde4a4ab13e09},{866,0xe0b10aab1c6e7},{866,0xe20728bbe12eb},{866,0xe91f24b264dae},{866,0xea0cf6bca15cc},{866,0xeabcb76bad32b},{866,0xf1447420172ef},{866,0xfe1e16e20879e},
{867,0x121b9ce1e172a},{867,0x14bfa5630bbba},{867,0x15ff3d104bc1d},{867,0x173ed4bd8bc80},{867,0x19874597a9f57},{867,0x3afae5c2a6ec5},{867,0x414f4ee1e940e},{867,0x46af58750cb32},{867,0x5c6c078f142f4},{867,0x5e094286bc66d},{867,0x71d496f78fa90},{867,0x7453c6520fb56},{867,0x764f84d5d3aa7},{867,0x7a053e8711f19},{867,0x92975b84329a0},{867,0x9fb6b2e1f8dd6},{867,0xa996dad80099f},{867,0xbd0b800986043},{867,0xc4eccb221364d},{867,0xc8b0a5e9c1a14},{867,0xcee9888c13965},{867,0xd2b30caaf1a91},{867,0xda836cc9c5e24},{867,0xdde4a4ab13e09},{867,0xe20728bbe12eb},{867,0xe91f24b264dae},{867,0xea0cf6bca15cc},{867,0xf1447420172ef},
{868,0x89d20bc457e},{868,0x121b9ce1e172a},{868,0x14bfa5630bbba},{868,0x15ff3d104bc1d},{868,0x1e744e6027ca1},{868,0x414f4ee1e940e},{868,0x46af58750cb32},{868,0x5e094286bc66d},{868,0x5ec2a91ceccda},{868,0x625bbe8a150c3},{868,0x6cd638428f904},{868,0x71d496f78fa90},{868,0x73142ea4cfaf3},{868,0x744f0bc0ff583},{868,0x795225070fce2},{868,0x7a053e8711f19},{868,0x7e8cf9ed02287},{868,0x92975b84329a0},{868,0x9b0263dfc0624},{868,0xa6a1bd1b630b9},{868,0xbb88b301b475c},{868,0xbddb401b4bba7},{868,0xc7fd0f0c00a4f},{868,0xcee9888c13965},{868,0xd0292039539c8},{868,0xd168b7e693a2b},{868,0xd3ae36d13bbce},{868,0xe91f24b264dae},{868,0xea0cf6bca15cc},{868,0xf6c1ae20ed04a},{868,0xf6dc7e34145c5},
{869,0x89d20bc457e},{869,0x64eb061df7f1},{869,0x752275b0f2fc},{869,0x843b89e8b7dc},{869,0x121b9ce1e172a},{869,0x14bfa5630bbba},{869,0x15ff3d104bc1d},{869,0x1e744e6027ca1},{869,0x29b575e1e559c},{869,0x3072d0d60c01b},{869,0x391835eba86af},{869,0x46af58750cb32},{869,0x5e094286bc66d},{869,0x5ec2a91ceccda},{869,0x625bbe8a150c3},{869,0x6405949c14320},{869,0x6a829855d1b6e},{869,0x727462ce2fac1},{869,0x73142ea4cfaf3},{869,0x92975b84329a0},{869,0x99386ff714454},{869,0x9b0263dfc0624},{869,0xa1fd4dcb00973},{869,0xa6a1bd1b630b9},{869,0xb870de5d9326f},{869,0xbb88b301b475c},{869,0xbcb546a565e5f},{869,0xcb2ac1845383c},{869,0xceb68049c3eeb},{869,0xceea64e200aba},{869,0xcf895462b3997},{869,0xd168b7e693a2b},{869,0xe91f24b264dae},{869,0xf5ae07ab5c968},{869,0xf6dc7e34145c5},{869,0xfcec91d3d8599},
{870,0x64eb061df7f1},{870,0x752275b0f2fc},{870,0x843b89e8b7dc},{870,0x121b9ce1e172a},{870,0x14bfa5630bbba},{870,0x15ff3d104bc1d},{870,0x17dea0942bcb2},{870,0x1e744e6027ca1},{870,0x224114e6a7cb7},{870,0x27798889cc187},{870,0x3072d0d60c01b},{870,0x4439cfef3db6f},{870,0x46af58750cb32},{870,0x58e927e1ed280},{870,0x5e094286bc66d},{870,0x63d9cafe1a03b},{870,0x6a829855d1b6e},{870,0x73142ea4cfaf3},{870,0x7bfd8c8a00897},{870,0x8615ebef9594e},{870,0x92975b84329a0},{870,0x963adcf111528},{870,0x99386ff714454},{870,0xa1fd4dcb00973},{870,0xa9d01955161d9},{870,0xaf85e19656457},{870,0xb870de5d9326f},{870,0xbd6555b91ae8a},{870,0xce49bcb573934},{870,0xceb68049c3eeb},{870,0xceea64e200aba},{870,0xcf895462b3997},{870,0xd0fa921d1fb3b},{870,0xd168b7e693a2b},{870,0xd63939b5174f8},{870,0xd7a6ae48d3c1a},{870,0xe11f831e9b715},{870,0xe3c1cd806cfdc},{870,0xe91f24b264dae},{870,0xefdd7f33fef9a},{870,0xf5ae07ab5c968},{870,0xfcec91d3d8599},{870,0xfdc3e741a58e9},
{871,0x64eb061df7f1},{871,0x752275b0f2fc},{871,0x15ff3d104bc1d},{871,0x1b7ccb00fcf45},{871,0x1c686f3edb902},{871,0x1de88961e3663},{871,0x1e744e6027ca1},{871,0x224114e6a7cb7},{871,0x2d1c867fc4bc6},{871,0x3072d0d60c01b},{871,0x4579679c7dbd2},{871,0x46af58750cb32},{871,0x46b409a552625},{871,0x47e5eb60fe264},{871,0x58e927e1ed280},{871,0x5e094286bc66d},{871,0x6038ce159430a},{871,0x621f3158d4315},{871,0x63d9cafe1a03b},{871,0x6ff53373af9fb},{871,0x73142ea4cfaf3},{871,0x7bfd8c8a00897},{871,0xa0aef5ad21a13},{871,0xa1fd4dcb00973},{871,0xa9d01955161d9},{871,0xb870de5d9326f},{871,0xbd6555b91ae8a},{871,0xcdaed1a6de1ef},{871,0xce49bcb573934},{871,0xd63939b5174f8},{871,0xd7a6ae48d3c1a},{871,0xe11f831e9b715},{871,0xe3c1cd806cfdc},{871,0xe6a69dd22c940},{871,0xefdd7f33fef9a},{871,0xf2c5c36fadc81},{871,0xf5ae07ab5c968},{871,0xfae9fe03bc10d},{871,0xfcec91d3d8599},{871,0xfdc3e741a58e9},{871,0xff868bf4d9569},
{872,0x64eb061df7f1},{872,0x17dea0942bcb2},{872,0x1c63cec550218},{872,0x1de88961e3663},{872,0x1e57af219d084},{872,0x2d1c867fc4bc6},{872,0x3072d0d60c01b},{872,0x4230231fbdfe6},{872,0x46af58750cb32},{872,0x46b409a552625},{872,0x5e094286bc66d},{872,0x6038ce159430a},{872,0x621f3158d4315},{872,0x63d9cafe1a03b},{872,0x6581564ba99ce},{872,0x6ff53373af9fb},{872,0x73142ea4cfaf3},{872,0x7b1becdb90773},{872,0x7f10d13e75105},{872,0x809c5732cdc7f},{872,0x93e9c661f6e9d},{872,0xa0aef5ad21a13},{872,0xa1fd4dcb00973},{872,0xa3cdf0de41b0b},{872,0xa9d01955161d9},{872,0xb673536428011},{872,0xb870de5d9326f},{872,0xe3502503b829b},{872,0xe3c1cd806cfdc},{872,0xe6a69dd22c940},{872,0xf5ae07ab5c968},{872,0xfbe483bdc5854},{872,0xfcec91d3d8599},{872,0xff868bf4d9569},
{873,0x25206ad91988},{873,0x33bb314da54d},{873,0x17dea0942bcb2},{873,0x197b8a89a1531},{873,0x1c63cec550218},{873,0x1de88961e3663},{873,0x27f43eb067cd8},{873,0x2d1c867fc4bc6},{873,0x3072d0d60c01b},{873,0x331ecd414d974},{873,0x4230231fbdfe6},{873,0x437583ca56a38},{873,0x46b409a552625},{873,0x57c1d10a40890},{873,0x5dd648b936bde},{873,0x66e5be16732ed},{873,0x69b8be65d4341},{873,0x6d4ee803a4a61},{873,0x6ff53373af9fb},{873,0x7b1becdb90773},{873,0x809c5732cdc7f},{873,0x93e9c661f6e9d},{873,0xa1fd4dcb00973},{873,0xa3cdf0de41b0b},{873,0xa9d01955161d9},{873,0xab7d3e1b409aa},{873,0xacdd663b7e219},{873,0xb2e806892bb10},{873,0xb5ecdb98ba928},{873,0xb870de5d9326f},{873,0xcd96a335716fc},{873,0xdafcefac80abd},{873,0xe3c1cd806cfdc},{873,0xe6a69dd22c940},{873,0xe724b280f28e5},{873,0xed41bdd0ad013},{873,0xeef35d90fcc64},{873,0xfbe483bdc5854},{873,0xfcec91d3d8599},{873,0xff868bf4d9569},
{874,0x20ee15f1683c0},{874,0x2d1c867fc4bc6},{874,0x2ded05b961738},{874,0x331ecd414d974},{874,0x437583ca56a38},{874,0x46b409a552625},{874,0x4f42704a58971},{874,0x57c1d10a40890},{874,0x5cad0980aeb54},{874,0x5dd648b936bde},{874,0x66e5be16732ed},{874,0x6cfcf65da16f0},{874,0x74fd38fd60c8a},{874,0x809c5732cdc7f},{874,0x93e9c661f6e9d},{874,0x9508fb35658e9},{874,0xa65fd172a997a},{874,0xa6c62df44fe16},{874,0xa9d01955161d9},{874,0xacdd663b7e219},{874,0xb1204fae4182c},{874,0xb9e65bb867215},{874,0xc3ca96afa2a02},{874,0xcd96a335716fc},{874,0xdafcefac80abd},{874,0xe23d0a8f81786},{874,0xe6a69dd22c940},{874,0xe724b280f28e5},{874,0xed41bdd0ad013},{874,0xf2d50e6089146},{874,0xfbe483bdc5854},{874,0xff868bf4d9569},
{875,0xecf2b36ef5a3},{875,0x1208141e9900a},{875,0x20ee15f1683c0},{875,0x28bb3e31754fc},{875,0x2ded05b961738},{875,0x3bc266882edcf},{875,0x46b409a552625},{875,0x5dd648b936bde},{875,0x66e5be16732ed},{875,0x67ef63be932f8},{875,0x74fd38fd60c8a},{875,0x809c5732cdc7f},{875,0x8a430eca6258e},{875,0x92d9472cec0df},{875,0x9508fb35658e9},{875,0xa149ee19691c3},{875,0xa7373591200bb},{875,0xacdd663b7e219},{875,0xb1204fae4182c},{875,0xc3ca96afa2a02},{875,0xc8b8218854567},{875,0xd0f0b17f01e34},{875,0xed41bdd0ad013},{875,0xf2d50e6089146},{875,0xf479fa899fbe6},{875,0xf66424e2c32be},{875,0xf9cef98253abb},{875,0xfbe483bdc5854},
{876,0x53b95eda8cdc},{876,0xecf2b36ef5a3},{876,0x28bb3e31754fc},{876,0x2ded05b961738},{876,0x302822a35bdc8},{876,0x35f9b161edab3},{876,0x3652b9f8130c1},{876,0x3a570bcd47808},{876,0x3aadf8624871d},{876,0x3bc266882edcf},{876,0x4d67b21429162},{876,0x5dd648b936bde},{876,0x66e5be16732ed},{876,0x6e55a316a4848},{876,0x76f59f9b39370},{876,0x809c5732cdc7f},{876,0x8559d77a5a6fc},{876,0x909ed4cfe81ac},{876,0x92d9472cec0df},{876,0xa149ee19691c3},{876,0xa6b194cb5b5dd},{876,0xa7373591200bb},{876,0xacdd663b7e219},{876,0xaf01e0dd02415},{876,0xc8b8218854567},{876,0xc8fac6849ef41},{876,0xd460f4fca1d37},{876,0xdf0d868012372},{876,0xe39b01ae9573e},{876,0xed41bdd0ad013},{876,0xf479fa899fbe6},{876,0xf66424e2c32be},{876,0xfbe483bdc5854},
{877,0xec25889d89d0},{877,0xecf2b36ef5a3},{877,0x11b4093f749b9},{877,0x28bb3e31754fc},{877,0x29181f86cdbf9},{877,0x2ded05b961738},{877,0x302822a35bdc8},{877,0x35f9b161edab3},{877,0x3a570bcd47808},{877,0x3aadf8624871d},{877,0x3b1be052f7adc},{877,0x4b86f05ce785a},{877,0x4d67b21429162},{877,0x568a19263f40d},{877,0x580c8ca82c3b3},{877,0x5b6f29b1dfaa1},{877,0x5f1c82597ecb2},{877,0x6e55a316a4848},{877,0x76f59f9b39370},{877,0x809c5732cdc7f},{877,0x8559d77a5a6fc},{877,0x91738c8490b5a},{877,0x9520e52c2fd6b},{877,0xa149ee19691c3},{877,0xa2056e0933e7f},{877,0xa6b194cb5b5dd},{877,0xa7373591200bb},{877,0xacdd663b7e219},{877,0xc32013a12a8d8},{877,0xc777ef5741c13},{877,0xc83c33f509cac},{877,0xc8fac6849ef41},{877,0xcb2547fee0e24},{877,0xd460f4fca1d37},{877,0xdf0d868012372},{877,0xe39b01ae9573e},{877,0xefeabe8b182ce},{877,0xf479fa899fbe6},{877,0xf66424e2c32be},{877,0xfbfd1877f2c22},
{878,0xecf2b36ef5a3},{878,0x18d504546a23e},{878,0x21aa18590ce81},{878,0x232895608290b},{878,0x29181f86cdbf9},{878,0x2f39779b5c7c7},{878,0x3a570bcd47808},{878,0x3b1be052f7adc},{878,0x4b86f05ce785a},{878,0x568a19263f40d},{878,0x5b6f29b1dfaa1},{878,0x5f1c82597ecb2},{878,0x70afc696d1e7d},{878,0x76f59f9b39370},{878,0x809c5732cdc7f},{878,0x8fa11d5749cba},{878,0x91738c8490b5a},{878,0x9520e52c2fd6b},{878,0x9768832b739f7},{878,0xa149ee19691c3},{878,0xa6b194cb5b5dd},{878,0xa7373591200bb},{878,0xa883a7731b14a},{878,0xacdd663b7e219},{878,0xafc244440362f},{878,0xb9795c0995fc9},{878,0xc8b8218854567},{878,0xd460f4fca1d37},{878,0xf479fa899fbe6},{878,0xf66424e2c32be},{878,0xf8ffa5b54043f},{878,0xfbfd1877f2c22},
{879,0xecf2b36ef5a3},{879,0x18d504546a23e},{879,0x1adbb56d9c37b},{879,0x1d7314f534b60},{879,0x232895608290b},{879,0x2f39779b5c7c7},{879,0x3a570bcd47808},{879,0x4b86f05ce785a},{879,0x512337c5ed580},{879,0x568a19263f40d},{879,0x7c322b4c32d3a},{879,0x809c5732cdc7f},{879,0x8937c613af27e},{879,0x8bb0adb116a2d},{879,0x8fa11d5749cba},{879,0x9520e52c2fd6b},{879,0x9768832b739f7},{879,0xa149ee19691c3},{879,0xa6b194cb5b5dd},{879,0xa7373591200bb},{879,0xa883a7731b14a},{879,0xacdd663b7e219},{879,0xb274464c3e4e6},{879,0xc2119ca0529b3},{879,0xc302a11d067bc},{879,0xc8b8218854567},{879,0xd40db1e2063bd},{879,0xd460f4fca1d37},{879,0xdcb362ffe4d3d},{879,0xdd88a12ac96f9},{879,0xe6b04d58f10bb},{879,0xeec6ef8b76488},{879,0xf66424e2c32be},{879,0xf8ffa5b54043f},{879,0xfbfd1877f2c22},
{880,0xe9f7b5790927},{880,0x18d504546a23e},{880,0x1d7314f534b60},{880,0x232895608290b},{880,0x2f39779b5c7c7},{880,0x3a570bcd47808},{880,0x3ae8f34d1872b},{880,0x45bd344bdd02f},{880,0x4b86f05ce785a},{880,0x4bec7536d2575},{880,0x505e8844c2582},{880,0x512337c5ed580},{880,0x5524486c7d6cc},{880,0x55aedf7c8d2cd},{880,0x568a19263f40d},{880,0x679569501355c},{880,0x7c322b4c32d3a},{880,0x8fa11d5749cba},{880,0x93a6f4344a1d9},{880,0x9520e52c2fd6b},{880,0x9931213e39005},{880,0x9e094f0f55304},{880,0xa149ee19691c3},{880,0xa6b194cb5b5dd},{880,0xa883a7731b14a},{880,0xacdd663b7e219},{880,0xc536a50e90ef8},{880,0xcb3948ce7a375},{880,0xd40db1e2063bd},{880,0xd460f4fca1d37},{880,0xdcb362ffe4d3d},{880,0xdd88a12ac96f9},{880,0xe6b04d58f10bb},{880,0xe913e48d4cd2a},{880,0xeec6ef8b76488},{880,0xf23553ee0fe04},{880,0xf2dc053bb7c9b},
{881,0x128a230f07e69},{881,0x17f6d76516f65},{881,0x18d504546a23e},{881,0x1d25a079261eb},{881,0x232895608290b},{881,0x2f39779b5c7c7},{881,0x34a400cf1e0aa},{881,0x36fca66073c85},{881,0x3a570bcd47808},{881,0x3d92f6691769e},{881,0x4b86f05ce785a},{881,0x505e8844c2582},{881,0x512337c5ed580},{881,0x55aedf7c8d2cd},{881,0x568a19263f40d},{881,0x6804ec3ca424b},{881,0x7c322b4c32d3a},{881,0x7fedfc3033b24},{881,0x8fa11d5749cba},{881,0x948efdac5ee48},{881,0x9520e52c2fd6b},{881,0x9931213e39005},{881,0x9d1b8e299d155},{881,0x9ff15b04ca2f1},{881,0xa149ee19691c3},{881,0xa883a7731b14a},{881,0xaa937b2ff43a9},{881,0xc536a50e90ef8},{881,0xd40db1e2063bd},{881,0xd460f4fca1d37},{881,0xd4ed2fd638710},{881,0xd8f4cb13b5a18},{881,0xdb3eb61f3f888},{881,0xdcb362ffe4d3d},{881,0xdd88a12ac96f9},{881,0xe21c7741dd3da},{881,0xe913e48d4cd2a},{881,0xeec6ef8b76488},{881,0xf23553ee0fe04},
{882,0x113a8f1b3f00},{882,0x52ae1623d9ab},{882,0x1d7314f534b60},{882,0x2f39779b5c7c7},{882,0x3d92f6691769e},{882,0x505e8844c2582},{882,0x512337c5ed580},{882,0x64cfda3281e38},{882,0x6804ec3ca424b},{882,0x734bea7887113},{882,0x7e92e8b469fdb},{882,0x7fedfc3033b24},{882,0x8164cdbbd42cb},{882,0x85852c213d021},{882,0x948efdac5ee48},{882,0x9931213e39005},{882,0x9c913e218197b},{882,0x9d1b8e299d155},{882,0x9ff15b04ca2f1},{882,0xa149ee19691c3},{882,0xa883a7731b14a},{882,0xbaf2421f0eea1},{882,0xbd7dc6893ecd2},{882,0xc1aaf69bea968},{882,0xd40db1e2063bd},{882,0xd460f4fca1d37},{882,0xd4ed2fd638710},{882,0xd6aae0082bba7},{882,0xd8f4cb13b5a18},{882,0xdb3eb61f3f888},{882,0xdcb362ffe4d3d},{882,0xdd88a12ac96f9},{882,0xe913e48d4cd2a},{882,0xeb44237004d9c},{882,0xeec6ef8b76488},{882,0xf23553ee0fe04},
{883,0x113a8f1b3f00},{883,0x1d7314f534b60},{883,0x2eda05d879fca},{883,0x2f39779b5c7c7},{883,0x33edbe9bb7431},{883,0x3d92f6691769e},{883,0x44b2e7d6ebf57},{883,0x512337c5ed580},{883,0x5e40e940d8653},{883,0x62b7984ec8392},{883,0x6501835a52202},{883,0x6804ec3ca424b},{883,0x734bea7887113},{883,0x8fbe4c898f1a2},{883,0x9931213e39005},{883,0x9c913e218197b},{883,0x9d1b8e299d155},{883,0x9e414c9325e36},{883,0xa149ee19691c3},{883,0xa1784ea69d170},{883,0xa3acce2d46a68},{883,0xaa11b1aea3f53},{883,0xc8ef5dc2f0504},{883,0xd40db1e2063bd},{883,0xd460f4fca1d37},{883,0xd8f4cb13b5a18},{883,0xdb3eb61f3f888},{883,0xdcb362ffe4d3d},{883,0xdfd28c3653569},{883,0xdff2d15111da3},{883,0xe913e48d4cd2a},{883,0xeb44237004d9c},{883,0xf0432177c1b7d},{883,0xf23553ee0fe04},{883,0xfe3db5764e389},
{884,0x78807df9258a},{884,0xfb863800f2b7},{884,0x13e385f9d335a},{884,0x22d6ca26967f3},{884,0x2eda05d879fca},{884,0x2f39779b5c7c7},{884,0x40194734cec0c},{884,0x44b2e7d6ebf57},{884,0x598fec20a09d0},{884,0x6501835a52202},{884,0x6da86b5a959af},{884,0x71e30ab10ab3a},{884,0x734bea7887113},{884,0x885090cdce0b7},{884,0x8fbe4c898f1a2},{884,0x9931213e39005},{884,0x9c20f9fe55176},{884,0x9d1b8e299d155},{884,0x9e414c9325e36},{884,0xa0201cbcc8d45},{884,0xa1784ea69d170},{884,0xa1a169766e7ac},{884,0xa3acce2d46a68},{884,0xb20c2f4f8d49f},{884,0xd40db1e2063bd},{884,0xd460f4fca1d37},{884,0xdb3eb61f3f888},{884,0xdcb362ffe4d3d},{884,0xdfd28c3653569},{884,0xe913e48d4cd2a},{884,0xf0432177c1b7d},{884,0xf23553ee0fe04},
{885,0xb9be3a5e16aa},{885,0x123377882ee9f},{885,0x13e385f9d335a},{885,0x1e17c4a255cee},{885,0x22d6ca26967f3},{885,0x2798feec5184f},{885,0x2f39779b5c7c7},{885,0x373b26738c138},{885,0x64cfda3281e38},{885,0x6501835a52202},{885,0x70731a9403a35},{885,0x707a2ae98e561},{885,0x71e30ab10ab3a},{885,0x734bea7887113},{885,0x784df6366f95a},{885,0x885090cdce0b7},{885,0x8fbe4c898f1a2},{885,0x9931213e39005},{885,0x9c20f9fe55176},{885,0xa1a169766e7ac},{885,0xa26a07c852bb6},{885,0xb20c2f4f8d49f},{885,0xb281f9e6d96fa},{885,0xd450ce624a7aa},{885,0xdfd28c3653569},{885,0xe913e48d4cd2a},{885,0xeb44237004d9c},
{886,0x159c0e51185b},{886,0xb9be3a5e16aa},{886,0x123377882ee9f},{886,0x13e385f9d335a},{886,0x1aa3bfc064646},{886,0x25ef7583c7fe8},{886,0x2798feec5184f},{886,0x2f39779b5c7c7},{886,0x330a962603081},{886,0x3835deec31a71},{886,0x5e1f27b4c2a74},{886,0x6501835a52202},{886,0x70731a9403a35},{886,0x71e30ab10ab3a},{886,0x784df6366f95a},{886,0x885090cdce0b7},{886,0x8fbe4c898f1a2},{886,0x99084ea123981},{886,0xaddb9f02043e8},{886,0xb20c2f4f8d49f},{886,0xb281f9e6d96fa},{886,0xbb657e627a476},{886,0xcb6535baa0d4f},{886,0xd450ce624a7aa},{886,0xeb44237004d9c},{886,0xf8ce02d07ae2a},
{887,0xb9be3a5e16aa},{887,0x1aa3bfc064646},{887,0x1fbe1ec964ffe},{887,0x2798feec5184f},{887,0x330a962603081},{887,0x5e1f27b4c2a74},{887,0x6501835a52202},{887,0x70731a9403a35},{887,0x713682be715bd},{887,0x71e30ab10ab3a},{887,0x784df6366f95a},{887,0x7ba9daecd137f},{887,0x7d08433119118},{887,0x903380de6633c},{887,0x9f39a55b8696b},{887,0xaeb4fe2d7e134},{887,0xaff3e728c8c44},{887,0xb20c2f4f8d49f},{887,0xbf28afc7d6432},{887,0xc84fb0e6b56de},{887,0xd14c6fd3d2beb},{887,0xd450ce624a7aa},{887,0xd57e85550bb3d},{887,0xecf293a024354},{887,0xed5c6b96c95f7},{887,0xf5fd61db37b28},{887,0xf8ce02d07ae2a},
{888,0x924f31ea895b},{888,0x1562780264fd5},{888,0x16631a1d29fb9},{888,0x2306545dfebd9},{888,0x330a962603081},{888,0x345b46397df2d},{888,0x3eb4d06d53f90},{888,0x46eea93a8010f},{888,0x4e82dc8f59c55},{888,0x52cafc7065989},{888,0x5e1f27b4c2a74},{888,0x6ff6590415f2a},{888,0x71e30ab10ab3a},{888,0x728b62bac8290},{888,0x784df6366f95a},{888,0x7d08433119118},{888,0x903380de6633c},{888,0x9937fb0b8690f},{888,0x9d195dcbe010c},{888,0xaa0e44c7fd2ce},{888,0xaeb4fe2d7e134},{888,0xaf6acf2897747},{888,0xb20c2f4f8d49f},{888,0xcd9c054c66cf0},{888,0xd450ce624a7aa},{888,0xd739bc3b9ba3d},{888,0xd7dbabd26071c},{888,0xecf293a024354},{888,0xf18cfbe4526ae},{888,0xf3e3e17a276a2},{888,0xf5fd61db37b28},
{889,0x134a2fdba077a},{889,0x16631a1d29fb9},{889,0x16c262777579c},{889,0x2306545dfebd9},{889,0x243687143402b},{889,0x32f2667201954},{889,0x330a962603081},{889,0x345b46397df2d},{889,0x35c42600fa506},{889,0x52cafc7065989},{889,0x5e1f27b4c2a74},{889,0x614c4213a8a47},{889,0x71e30ab10ab3a},{889,0x728b62bac8290},{889,0x7d08433119118},{889,0x877e343e75623},{889,0x8a6d7e15851c2},{889,0x903380de6633c},{889,0x924bc9052ab98},{889,0x9937fb0b8690f},{889,0x9d195dcbe010c},{889,0xa22393b33036a},{889,0xaf6acf2897747},{889,0xb0650c9f225ef},{889,0xcd9c054c66cf0},{889,0xd450ce624a7aa},{889,0xd7dbabd26071c},{889,0xe3ad6c4508277},{889,0xf339c7aba62a6},{889,0xf3e3e17a276a2},
{890,0x16631a1d29fb9},{890,0x1ccc7f8b4c800},{890,0x2c911061577d7},{890,0x330a962603081},{890,0x345b46397df2d},{890,0x485193ae8efbf},{890,0x517bdc5a70880},{890,0x52cafc7065989},{890,0x5a3503f94d1b4},{890,0x5e1f27b4c2a74},{890,0x614c4213a8a47},{890,0x6d7be7ca7b0e9},{890,0x71e30ab10ab3a},{890,0x728b62bac8290},{890,0x7d08433119118},{890,0x903380de6633c},{890,0x9937fb0b8690f},{890,0xa22393b33036a},{890,0xcee321481c03a},{890,0xd450ce624a7aa},{890,0xdc70145e35d46},{890,0xe6b5150d93206},{890,0xed676bb9d79ca},{890,0xfc307aa89864d},
{891,0x9ce6b1d5b6d},{891,0x84fe69b9686f},{891,0xdf870797d7aa},{891,0x16631a1d29fb9},{891,0x16c262777579c},{891,0x1cc0ad081b751},{891,0x2b8dc116bbaa0},{891,0x345b46397df2d},{891,0x4ecb9b91e0cd1},{891,0x52cafc7065989},{891,0x55101bbb4a729},{891,0x5ab4dbdd5e7f9},{891,0x5e1f27b4c2a74},{891,0x67e7e3f6822f1},{891,0x6bc4f5e39c4aa},{891,0x6e7b0e803cee3},{891,0x71e30ab10ab3a},{891,0x7209760d05f02},{891,0x7d08433119118},{891,0x924bc9052ab98},{891,0x979d88674db67},{891,0xa22393b33036a},{891,0xbcafae13d343e},{891,0xc2525d4015780},{891,0xc6aad4ce5bc87},{891,0xcc577c346a8ce},{891,0xd450ce624a7aa},{891,0xda9675b82dc32},{891,0xe0dc1d0e110ba},{891,0xe6b5150d93206},{891,0xe71393227bce5},{891,0xe849ebc9b2bad},{891,0xee9085fab249d},{891,0xfc307aa89864d},
{892,0x9ce6b1d5b6d},{892,0x84fe69b9686f},{892,0x109ea0cc0f4f8},{892,0x16c262777579c},{892,0x1cc0ad081b751},{892,0x2081834fc0416},{892,0x28bb43669bc8d},{892,0x2db8d6c3e00b2},{892,0x345b46397df2d},{892,0x4d860f70ca35d},{892,0x52cafc7065989},{892,0x581cbbd288958},{892,0x5aa3050b465fa},{892,0x5c72fb1552d83},{892,0x5e008ef883920},{892,0x6e7b0e803cee3},{892,0x7f81e415926ee},{892,0x80eac3dd0ecc7},{892,0x8253a3a48b2a0},{892,0x8279d00bee22b},{892,0x865ac69300d2a},{892,0x87eb5ce6c333e},{892,0x924bc9052ab98},{892,0x979d88674db67},{892,0x9c5aceb678353},{892,0xa22393b33036a},{892,0xa25ad2030b593},{892,0xb8852b0350364},{892,0xbcafae13d343e},{892,0xbe5add7315dfc},{892,0xc9e70187f30da},{892,0xd450ce624a7aa},{892,0xd8ca528f5e051},{892,0xda5ae8e320665},{892,0xda9675b82dc32},{892,0xe0dc1d0e110ba},{892,0xe6b5150d93206},{892,0xe7d42c510d951},{892,0xe849ebc9b2bad},{892,0xed4c7b43dd454},{892,0xee9085fab249d},{892,0xf6debb467567e},{892,0xfc307aa89864d},
{893,0x84fe69b9686f},{893,0x109ea0cc0f4f8},{893,0x165a98d2d6b86},{893,0x1bd4a6f7ff0cc},{893,0x2081834fc0416},{893,0x345b46397df2d},{893,0x39a63fe012ecf},{893,0x5c72fb1552d83},{893,0x5c8dbddf49d52},{893,0x5e008ef883920},{893,0x77b30c1a7bc8a},{893,0x79de64f7a0f8a},{893,0x80eac3dd0ecc7},{893,0x8253a3a48b2a0},{893,0x8279d00bee22b},{893,0x87eb5ce6c333e},{893,0x87f722c27ca04},{893,0x8f700d8fafa69},{893,0x9c5aceb678353},{893,0xa22393b33036a},{893,0xa25ad2030b593},{893,0xb0c244f7a0621},{893,0xb8852b0350364},{893,0xbb0ad1fb799e7},{893,0xbe5add7315dfc},{893,0xc17fd860a0a12},{893,0xc9e70187f30da},{893,0xcc7ad637ccdd7},{893,0xda9675b82dc32},{893,0xddb949631f676},{893,0xe0dc1d0e110ba},{893,0xe30bbe1845b94},{893,0xe7d42c510d951},{893,0xed4c7b43dd454},{893,0xee9085fab249d},{893,0xeef92734789b1},{893,0xf40212d5875b0},
{894,0x84fe69b9686f},{894,0x165a98d2d6b86},{894,0x2082f6ecdb8da},{894,0x25d342b1e33e5},{894,0x2eb0012b707cc},{894,0x39a63fe012ecf},{894,0x3a2d93e5ad253},{894,0x3d0b8fe910d9a},{894,0x4f942b970e01c},{894,0x5c72fb1552d83},{894,0x5c8dbddf49d52},{894,0x5e008ef883920},{894,0x72d206123324d},{894,0x739a961760598},{894,0x77b30c1a7bc8a},{894,0x80eac3dd0ecc7},{894,0x81c6a0b402fd5},{894,0x960fe08d5847e},{894,0xa22393b33036a},{894,0xa25ad2030b593},{894,0xa5a6851e306ba},{894,0xb8852b0350364},{894,0xbbdcfcacb130b},{894,0xbdf6b7de25477},{894,0xc9e70187f30da},{894,0xcc7ad637ccdd7},{894,0xd12dfab758d66},{894,0xda9675b82dc32},{894,0xdb5f2aa2ea2c3},{894,0xdc27df8da6954},{894,0xe0dc1d0e110ba},{894,0xe15290cd420b4},{894,0xf40212d5875b0},
{895,0x5563c4ffe222},{895,0x84fe69b9686f},{895,0x165a98d2d6b86},{895,0x2354b67bd448c},{895,0x25d342b1e33e5},{895,0x26d5185a90149},{895,0x2eb0012b707cc},{895,0x36586b030afa8},{895,0x3a2d93e5ad253},{895,0x3d0b8fe910d9a},{895,0x4f7d27935da62},{895,0x516b4d48b35bd},{895,0x5c72fb1552d83},{895,0x5e008ef883920},{895,0x68a1e423b051b},{895,0x6e4432f45c3f3},{895,0x72d206123324d},{895,0x739a961760598},{895,0x77b30c1a7bc8a},{895,0x79270c74d80de},{895,0x80eac3dd0ecc7},{895,0x81c6a0b402fd5},{895,0x960fe08d5847e},{895,0x9aeb5d4455a8e},{895,0xa22393b33036a},{895,0xa25ad2030b593},{895,0xa38af18380985},{895,0xa5a6851e306ba},{895,0xb38fb9daa78e4},{895,0xb41019d4a8548},{895,0xb8852b0350364},{895,0xbbdcfcacb130b},{895,0xc992d5831452f},{895,0xd9050be2b4f10},{895,0xda9675b82dc32},{895,0xdb5f2aa2ea2c3},{895,0xdc27df8da6954},{895,0xe0dc1d0e110ba},{895,0xf08a3f64c940e},{895,0xf6debb467567e},{895,0xfd6fbfef40130},
{896,0x5563c4ffe222},{896,0x165a98d2d6b86},{896,0x2354b67bd448c},{896,0x25d342b1e33e5},{896,0x293e74509b6b9},{896,0x2eb0012b707cc},{896,0x3a2d93e5ad253},{896,0x3d0b8fe910d9a},{896,0x3d8f3b1ffe45f},{896,0x4f7d27935da62},{896,0x51254ba1686b2},{896,0x5c72fb1552d83},{896,0x5f49cf47fd7f2},{896,0x68a1e423b051b},{896,0x692b0892e1142},{896,0x739a961760598},{896,0x77b30c1a7bc8a},{896,0x80eac3dd0ecc7},{896,0x81c6a0b402fd5},{896,0x884f827bb3cc3},{896,0x95552a3f5f92b},{896,0x960fe08d5847e},{896,0x9aeb5d4455a8e},{896,0xa25ad2030b593},{896,0xa38af18380985},{896,0xa5a6851e306ba},{896,0xa9a5f10ec26d1},{896,0xb8852b0350364},{896,0xbbdcfcacb130b},{896,0xc956e98bfcbbc},{896,0xc992d5831452f},{896,0xcb608536c1a64},{896,0xcd34d664fb001},{896,0xd9050be2b4f10},{896,0xdafa75794824a},{896,0xdb5f2aa2ea2c3},{896,0xdcf0947862fe5},{896,0xe58d3023b723f},{896,0xf08a3f64c940e},{896,0xfd6fbfef40130},
{897,0x5563c4ffe222},{897,0x14c29a3ed8e83},{897,0x2354b67bd448c},{897,0x2576429b4c2d0},{897,0x25d342b1e33e5},{897,0x293e74509b6b9},{897,0x2d174475b0989},{897,0x2de756cf2b93c},{897,0x3a2d93e5ad253},{897,0x3ab17128db9e7},{897,0x3d0b8fe910d9a},{897,0x3e9cf9be89abc},{897,0x469290f6f96bd},{897,0x4f7d27935da62},{897,0x5c72fb1552d83},{897,0x5f49cf47fd7f2},{897,0x625ff0dc64625},{897,0x739a961760598},{897,0x80eac3dd0ecc7},{897,0x81c6a0b402fd5},{897,0x84d53b525c50b},{897,0x884f827bb3cc3},{897,0x8b7fc7d0e8872},{897,0x95552a3f5f92b},{897,0x960fe08d5847e},{897,0x9a135eeeb8e25},{897,0xa5a6851e306ba},{897,0xa74a85c8543f1},{897,0xac2f9b1af5246},{897,0xb8852b0350364},{897,0xbbdcfcacb130b},{897,0xbc66218a62e63},{897,0xc956e98bfcbbc},{897,0xc992d5831452f},{897,0xc9bfd03e4c2d7},{897,0xcd34d664fb001},{897,0xd5a5ea98da66d},{897,0xdb5f2aa2ea2c3},{897,0xdcf0947862fe5},{897,0xe58d3023b723f},{897,0xf08a3f64c940e},{897,0xf73bbb5d0c793},
{898,0x1d755bf074859},{898,0x2354b67bd448c},{898,0x25d342b1e33e5},{898,0x3ab17128db9e7},{898,0x3d0b8fe910d9a},{898,0x40fbd5a7d7f91},{898,0x46abcb63fdaab},{898,0x4f7d27935da62},{898,0x675692edfd6ef},{898,0x67c228cb64b69},{898,0x739a961760598},{898,0x79558c8023969},{898,0x79840c8b6f1f3},{898,0x7b49dab80805b},{898,0x7b550cfc6275c},{898,0x84d53b525c50b},{898,0x8bd102d09f4e6},{898,0x8d7f1165e3d76},{898,0x8ed2565d89af7},{898,0x95552a3f5f92b},{898,0x960fe08d5847e},{898,0x989326778c796},{898,0xa35c7178350fa},{898,0xa74a85c8543f1},{898,0xb38fb9daa78e4},{898,0xb3fc712f22f1d},{898,0xbc66218a62e63},{898,0xbfcd426b78502},{898,0xc956e98bfcbbc},{898,0xc992d5831452f},{898,0xc9bfd03e4c2d7},{898,0xcd34d664fb001},{898,0xdcf0947862fe5},{898,0xe58d3023b723f},{898,0xf73bbb5d0c793},
{899,0x1039d428a8b8e},{899,0x108a1024e934d},{899,0x1d755bf074859},{899,0x24024240efe7c},{899,0x2e6493c2a2b70},{899,0x3ab17128db9e7},{899,0x3d0b8fe910d9a},{899,0x3f4148df31fa3},{899,0x4f7d27935da62},{899,0x4faba79ea92ec},{899,0x61e4c701a8239},{899,0x64695a09c09e5},{899,0x6536fe47947d1},{899,0x67c228cb64b69},{899,0x739a961760598},{899,0x79840c8b6f1f3},{899,0x7b49dab80805b},{899,0x7b550cfc6275c},{899,0x7e6c692a4494e},{899,0x8bd102d09f4e6},{899,0x8d7f1165e3d76},{899,0x9213c04e74a11},{899,0x93b47546ea19e},{899,0x95552a3f5f92b},{899,0x960fe08d5847e},{899,0x989326778c796},{899,0x9bd7fe213575f},{899,0x9f1cd5cade728},{899,0xa35c7178350fa},{899,0xa6a7ac778ded4},{899,0xb38fb9daa78e4},{899,0xb848a3ee9807e},{899,0xbfcd426b78502},{899,0xc7adcde9068f0},{899,0xc956e98bfcbbc},{899,0xc9bfd03e4c2d7},{899,0xcd34d664fb001},{899,0xdbbcd9ec95b49},{899,0xdcf0947862fe5},{899,0xe58d3023b723f},{899,0xf70d3b51c0f08},{899,0xffcb2b35ae410},
{900,0xd686c58afa56},{900,0x295a332f2d3c7},{900,0x2e6493c2a2b70},{900,0x30039bdc236d7},{900,0x3ab17128db9e7},{900,0x3d0b8fe910d9a},{900,0x4faba79ea92ec},{900,0x61e4c701a8239},{900,0x623a3a27fd7f7},{900,0x739a961760598},{900,0x79840c8b6f1f3},{900,0x825caee90bb45},{900,0x83e2e5c0fad70},{900,0x8b90ec6c9ebdd},{900,0x8bd102d09f4e6},{900,0x8e703f01d2177},{900,0x93b47546ea19e},{900,0x95552a3f5f92b},{900,0x960fe08d5847e},{900,0x9bd7fe213575f},{900,0x9f1cd5cade728},{900,0xa35c7178350fa},{900,0xb848a3ee9807e},{900,0xc7adcde9068f0},{900,0xc956e98bfcbbc},{900,0xc9bfd03e4c2d7},{900,0xcd34d664fb001},{900,0xcec8b57852072},{900,0xdbbcd9ec95b49},{900,0xdcf0947862fe5},{900,0xe22108db5df85},{900,0xe58d3023b723f},{900,0xe85127756abf8},{900,0xf70d3b51c0f08},{900,0xfdbb2d580dd8c},
{901,0x16ddf17f7519},{901,0x29d5659d37c7},{901,0x2c02ea6226b2},{901,0xb6bcda2f99c2},{901,0xd686c58afa56},{901,0x1039d428a8b8e},{901,0x295a332f2d3c7},{901,0x2e6493c2a2b70},{901,0x39d6f4efcc8b4},{901,0x3d0b8fe910d9a},{901,0x4a74a59a43dd5},{901,0x4faba79ea92ec},{901,0x508e70cfccdfa},{901,0x61e4c701a8239},{901,0x623a3a27fd7f7},{901,0x739a961760598},{901,0x8b90ec6c9ebdd},{901,0x8bd102d09f4e6},{901,0x93b47546ea19e},{901,0x960fe08d5847e},{901,0x9856be3cfd155},{901,0x9856be3cfd156},{901,0x9bd7fe213575f},{901,0x9de970255b0bf},{901,0x9f1cd5cade728},{901,0xa35c7178350fa},{901,0xb848a3ee9807e},{901,0xc7adcde9068f0},{901,0xc9bfd03e4c2d7},{901,0xc9e586f2b3105},{901,0xcd34d664fb001},{901,0xdb45e2e215ea6},{901,0xdcf0947862fe5},{901,0xe07daf0c122dc},{901,0xe58d3023b723f},{901,0xfbb387d611b50},
{902,0xb6bcda2f99c2},{902,0xbc7b7603a2c9},{902,0xd686c58afa56},{902,0x1039d428a8b8e},{902,0x2e6493c2a2b70},{902,0x32410eadbdd00},{902,0x44c14e473add0},{902,0x472fcdf09ae0c},{902,0x474898bb60dcc},{902,0x4a367af2f205e},{902,0x4faba79ea92ec},{902,0x508e70cfccdfa},{902,0x54484932d2e72},{902,0x61e4c701a8239},{902,0x623a3a27fd7f7},{902,0x698ccdc600159},{902,0x732651ddbca9a},{902,0x8bd102d09f4e6},{902,0x8ec49f7a9183b},{902,0x93b47546ea19e},{902,0x960fe08d5847e},{902,0x9bd7fe213575f},{902,0x9f1cd5cade728},{902,0xa35c7178350fa},{902,0xb848a3ee9807e},{902,0xc7adcde9068f0},{902,0xc9bfd03e4c2d7},{902,0xd6da79be07542},{902,0xdc65334727439},{902,0xfbb387d611b50},
{903,0x8b74d39ed88d},{903,0xbc7b7603a2c9},{903,0xd686c58afa56},{903,0x1d17132d734e6},{903,0x2efb6e943e428},{903,0x32410eadbdd00},{903,0x36d797a04df1f},{903,0x3fc4efb205911},{903,0x472fcdf09ae0c},{903,0x474898bb60dcc},{903,0x4973807a96a90},{903,0x4a367af2f205e},{903,0x4faba79ea92ec},{903,0x508e70cfccdfa},{903,0x50ecb992ce16d},{903,0x61e4c701a8239},{903,0x623a3a27fd7f7},{903,0x698ccdc600159},{903,0x6e955c8246831},{903,0x7221730b5b7cc},{903,0x732651ddbca9a},{903,0x76c97635938ac},{903,0x7effbb41bdb7a},{903,0x8ec49f7a9183b},{903,0x93b47546ea19e},{903,0x9bd7fe213575f},{903,0xb0289a66f23f2},{903,0xb848a3ee9807e},{903,0xc9bfd03e4c2d7},{903,0xe4db9f31398cc},{903,0xe6b1a754d5157},{903,0xfe6c6dcc3c5ab},
{904,0xbc7b7603a2c9},{904,0x1917e8e981960},{904,0x1e31ed7676f3f},{904,0x2efb6e943e428},{904,0x32410eadbdd00},{904,0x3461c84415626},{904,0x3fc4efb205911},{904,0x4344abf0485b9},{904,0x4a367af2f205e},{904,0x4faba79ea92ec},{904,0x508e70cfccdfa},{904,0x53cfdac0b7d14},{904,0x5d2b0fe72bc53},{904,0x607ff89442c85},{904,0x6157f1ed942e3},{904,0x623a3a27fd7f7},{904,0x698ccdc600159},{904,0x732651ddbca9a},{904,0x84c25ff828df4},{904,0x8890a731ce9c0},{904,0x93b47546ea19e},{904,0x9bd7fe213575f},{904,0xb44e13e551864},{904,0xb848a3ee9807e},{904,0xbabb2367b34c9},{904,0xce92218fe8ca5},{904,0xd47d2eda82a4b},{904,0xe6b1a754d5157},{904,0xe7c71b346ffb9},{904,0xef1c60438c76b},{904,0xfe6c6dcc3c5ab},
{905,0xae113b32c291},{905,0xbc7b7603a2c9},{905,0xd96b5622f686},{905,0x1917e8e981960},{905,0x1f457a16a617d},{905,0x2a6fa70ec8229},{905,0x2efb6e943e428},{905,0x32410eadbdd00},{905,0x3fc4efb205911},{905,0x4206b7f15f489},{905,0x4a367af2f205e},{905,0x4faba79ea92ec},{905,0x508e70cfccdfa},{905,0x53cfdac0b7d14},{905,0x54484932d2e72},{905,0x698ccdc600159},{905,0x732651ddbca9a},{905,0x80786d7ff6bdd},{905,0x84c25ff828df4},{905,0x8890a731ce9c0},{905,0x93b47546ea19e},{905,0xa0d88cde425b2},{905,0xa18945ae6493e},{905,0xad5e4a9729b62},{905,0xb44e13e551864},{905,0xb848a3ee9807e},{905,0xb9a5ef1985d21},{905,0xbb033a44739c5},{905,0xc412d01b0b702},{905,0xc582e629d0c2c},{905,0xd47d2eda82a4b},{905,0xe3d9c7d27a2d4},{905,0xe3e02181b31aa},{905,0xe4e78d99f9d94},{905,0xe6b1a754d5157},{905,0xe7a3fadbcea2b},{905,0xe823ba4aac4eb},{905,0xf38b5d103586d},{905,0xfcace94b65f9e},{905,0xfe6c6dcc3c5ab},
{906,0xae113b32c291},{906,0xbc7b7603a2c9},{906,0xd96b5622f686},{906,0x13dc0c0a95ea0},{906,0x1917e8e981960},{906,0x2a6fa70ec8229},{906,0x3fc4efb205911},{906,0x40bfda1f51cba},{906,0x48d92fc8043bb},{906,0x49fe3a6a641c1},{906,0x4a367af2f205e},{906,0x4faba79ea92ec},{906,0x54484932d2e72},{906,0x5d50974bf314f},{906,0x698ccdc600159},{906,0x78c95d84009f4},{906,0x7ed152592d440},{906,0x80786d7ff6bdd},{906,0x81ee35063bec0},{906,0x84c25ff828df4},{906,0x92d3b3dca5d27},{906,0x93b47546ea19e},{906,0xab8339afb7e22},{906,0xb430c26dcea93},{906,0xb44e13e551864},{906,0xb848a3ee9807e},{906,0xbb033a44739c5},{906,0xc412d01b0b702},{906,0xc582e629d0c2c},{906,0xc7b1ad98b57e6},{906,0xd47d2eda82a4b},{906,0xe3d9c7d27a2d4},{906,0xe3e02181b31aa},{906,0xe4e78d99f9d94},{906,0xe6b1a754d5157},{906,0xf0005e01e1edf},{906,0xfe6c6dcc3c5ab},
{907,0x6f8bd3c51ee5},{907,0xae113b32c291},{907,0x1aa85d60fa25d},{907,0x24ce2815308cb},{907,0x2a6fa70ec8229},{907,0x2f09437ec3f7f},{907,0x3ac96a0bc1712},{907,0x3fc4efb205911},{907,0x40bfda1f51cba},{907,0x48d92fc8043bb},{907,0x4a367af2f205e},{907,0x5d50974bf314f},{907,0x698ccdc600159},{907,0x78c95d84009f4},{907,0x81ee35063bec0},{907,0x92d3b3dca5d27},{907,0x9c8839eebd32c},{907,0x9d1b6c7a69f9f},{907,0xab8339afb7e22},{907,0xb44e13e551864},{907,0xb848a3ee9807e},{907,0xbb033a44739c5},{907,0xc7b1ad98b57e6},{907,0xcc13eddbe5d9c},{907,0xd47d2eda82a4b},{907,0xe3d9c7d27a2d4},{907,0xe3e02181b31aa},{907,0xe4e78d99f9d94},{907,0xe6b1a754d5157},{907,0xeb485ce1607db},{907,0xed325e92767a3},{907,0xed45c7ac06598},{907,0xf4a348f0417bd},{907,0xfe6c6dcc3c5ab},
{908,0x2fd6edc452ab},{908,0x6f8bd3c51ee5},{908,0xae113b32c291},{908,0xed2e61e9fa84},{908,0x12c4b88a13277},{908,0x1aa85d60fa25d},{908,0x1d691a3716719},{908,0x1f1cfdc2e1f30},{908,0x21ba4b84ab4d1},{908,0x24ce2815308cb},{908,0x27ba055fc4e34},{908,0x28af06384fe18},{908,0x3ac96a0bc1712},{908,0x3f03c49fa5b8b},{908,0x3fc4efb205911},{908,0x40bfda1f51cba},{908,0x4cc43dc6786a3},{908,0x4ce6388c7be06},{908,0x5d50974bf314f},{908,0x6563b2672013d},{908,0x698ccdc600159},{908,0x6cfc8601948bc},{908,0x7a86f70251a8f},{908,0x7b1bbd2f96f8e},{908,0x7cbb2fef741e7},{908,0x81ee35063bec0},{908,0x86b527327740c},{908,0x98e6e3133adcd},{908,0x9a341c5123867},{908,0xaa6a9553b049a},{908,0xab5f962c3b47e},{908,0xb3fc9dc91e382},{908,0xb44e13e551864},{908,0xb99a73a436b04},{908,0xbb033a44739c5},{908,0xc03100e09bb00},{908,0xc7b1ad98b57e6},{908,0xd47d2eda82a4b},{908,0xe3d9c7d27a2d4},{908,0xe4e78d99f9d94},{908,0xe6b1a754d5157},{908,0xeb485ce1607db},{908,0xed325e92767a3},{908,0xf4a348f0417bd},{908,0xfaeab759503fb},{908,0xfe6c6dcc3c5ab},
{909,0x4e825259118d},{909,0x6ef4147b8a9e},{909,0x6f8bd3c51ee5},{909,0x9d8792fb4c49},{909,0xae113b32c291},{909,0xed2e61e9fa84},{909,0x128d596276966},{909,0x12c4b88a13277},{909,0x16b68af586a6a},{909,0x1aa85d60fa25d},{909,0x1f1cfdc2e1f30},{909,0x2172a7c4acf10},{909,0x21ba4b84ab4d1},{909,0x27ba055fc4e34},{909,0x28af06384fe18},{909,0x2c4ead28e8638},{909,0x3f8571684f310},{909,0x3fc4efb205911},{909,0x40bfda1f51cba},{909,0x421a95937d1db},{909,0x4ce6388c7be06},{909,0x5d50974bf314f},{909,0x6563b2672013d},{909,0x698ccdc600159},{909,0x6c362a3dc506f},{909,0x6cfc8601948bc},{909,0x7b1bbd2f96f8e},{909,0x813d8bd23b77c},{909,0x81ee35063bec0},{909,0x98e6e3133adcd},{909,0x9a341c5123867},{909,0xa86b26ea075c8},{909,0xaa6a9553b049a},{909,0xab5f962c3b47e},{909,0xb1b66ba22499f},{909,0xb3fc9dc91e382},{909,0xb44e13e551864},{909,0xb6b208f6dec0c},{909,0xba3f8a62f69b2},{909,0xbb033a44739c5},{909,0xc0a6109e76175},{909,0xc5df3fa8af0ed},{909,0xc76bb2a0b2812},{909,0xc7b1ad98b57e6},{909,0xe269c247cae70},{909,0xe3d9c7d27a2d4},{909,0xe4e78d99f9d94},{909,0xf10dec0723ee0},
{910,0x3ef25a107692},{910,0x4e825259118d},{910,0x6ef4147b8a9e},{910,0x6f8bd3c51ee5},{910,0xed2e61e9fa84},{910,0x12c4b88a13277},{910,0x1aa85d60fa25d},{910,0x2c45fa93594b6},{910,0x2c4ead28e8638},{910,0x2e61797a3ba1c},{910,0x3fc4efb205911},{910,0x5d50974bf314f},{910,0x698ccdc600159},{910,0x6cfc8601948bc},{910,0x7b1bbd2f96f8e},{910,0x9738cdc8cc5c3},{910,0x98e6e3133adcd},{910,0x9a341c5123867},{910,0xa4779cb5787b1},{910,0xa86b26ea075c8},{910,0xb1b66ba22499f},{910,0xb44e13e551864},{910,0xb746cf242410b},{910,0xbb033a44739c5},{910,0xc0a6109e76175},{910,0xc622775e40c4e},{910,0xc7b1ad98b57e6},{910,0xe269c247cae70},{910,0xeaebbe7bf281b},{910,0xecf51e5c53baa},{910,0xf61d0649768c5},
{911,0x1941731f3896},{911,0x3ef25a107692},{911,0x4e825259118d},{911,0x6ef4147b8a9e},{911,0x6f8bd3c51ee5},{911,0x9d8792fb4c49},{911,0xed2e61e9fa84},{911,0x189b69273cbe3},{911,0x1aa85d60fa25d},{911,0x1e2ec09eda7d4},{911,0x2558a94d3b223},{911,0x25e95105215d7},{911,0x2c45fa93594b6},{911,0x4168d18217809},{911,0x4fefd027c6659},{911,0x698ccdc600159},{911,0x6c362a3dc506f},{911,0x6cfc8601948bc},{911,0x79fbd4160764e},{911,0x7b1bbd2f96f8e},{911,0x8179e2eb92e9d},{911,0x8ec4b5c78f26d},{911,0x8ec4b5c78f26e},{911,0x9738cdc8cc5c3},{911,0x98e6e3133adcd},{911,0x9c0f88a38b63e},{911,0xa4779cb5787b1},{911,0xa86b26ea075c8},{911,0xb746cf242410b},{911,0xc622775e40c4e},{911,0xc7b1ad98b57e6},{911,0xcc2a5a4447814},{911,0xceb67e461f41a},{911,0xe1ddf5feaf541},{911,0xe269c247cae70},{911,0xf61d0649768c5},
{912,0x4e825259118d},{912,0x6ef4147b8a9e},{912,0x9d8792fb4c49},{912,0xed2e61e9fa84},{912,0x189b69273cbe3},{912,0x225fee0e6897c},{912,0x2b138855ab5d2},{912,0x2b7446b20c29f},{912,0x4884c977d11ca},{912,0x4c4e977ba1f5b},{912,0x4fefd027c6659},{912,0x5320e754b0582},{912,0x698ccdc600159},{912,0x69cf51b5d82d4},{912,0x6c362a3dc506f},{912,0x6cfc8601948bc},{912,0x72f0371bc7fdd},{912,0x746b599d80a13},{912,0x79fbd4160764e},{912,0x7b1bbd2f96f8e},{912,0x7d8295b783d29},{912,0x8f5528f1e55dd},{912,0x9738cdc8cc5c3},{912,0x98e6e3133adcd},{912,0x9c0f88a38b63e},{912,0xa4779cb5787b1},{912,0xb746cf242410b},{912,0xbd626c88f5187},{912,0xc7b1ad98b57e6},{912,0xceb67e461f41a},{912,0xd13ad4137c580},{912,0xdc8fbc504d9df},{912,0xe1ddf5feaf541},{912,0xe269c247cae70},{912,0xec7a9df00e3b8},{912,0xf275e33972f09},{912,0xf61d0649768c5},
{913,0x56b0dd2023ea},{913,0x6ef4147b8a9e},{913,0xed2e61e9fa84},{913,0x189b69273cbe3},{913,0x225fee0e6897c},{913,0x2b138855ab5d2},{913,0x2d82196cded06},{913,0x313b9648854bf},{913,0x4268c9b280e29},{913,0x454c21fcb2941},{913,0x4fb626388afa8},{913,0x5320e754b0582},{913,0x54fec3296fc1d},{913,0x622d94e2a3836},{913,0x6391887c9b608},{913,0x668e5db55bde8},{913,0x698ccdc600159},{913,0x746b599d80a13},{913,0x86a91e585dbf0},{913,0x8a0f38d495160},{913,0x9738cdc8cc5c3},{913,0x98e6e3133adcd},{913,0xa30e450b26d9c},{913,0xa4779cb5787b1},{913,0xa4e91dbadb1d4},{913,0xab24a7ce17faa},{913,0xb746cf242410b},{913,0xb855d3187aa96},{913,0xb9cfce007d2f7},{913,0xbd626c88f5187},{913,0xc7b1ad98b57e6},{913,0xceb67e461f41a},{913,0xcfa03143d2364},{913,0xdc8fbc504d9df},{913,0xdd64aad39c75c},{913,0xe47e6573b30b6},{913,0xec7a9df00e3b8},{913,0xec81a429c3259},{913,0xf275e33972f09},{913,0xf61d0649768c5},{913,0xf939133265fba},
{914,0xdd1fd780e69},{914,0x56b0dd2023ea},{914,0x6ef4147b8a9e},{914,0x189b69273cbe3},{914,0x225fee0e6897c},{914,0x2b138855ab5d2},{914,0x2d82196cded06},{914,0x300b5680d9516},{914,0x313b9648854bf},{914,0x47528869235ed},{914,0x5320e754b0582},{914,0x54fec3296fc1d},{914,0x5cd7a285061b5},{914,0x668e5db55bde8},{914,0x698ccdc600159},{914,0x744132b654ae5},{914,0x86a91e585dbf0},{914,0x98e6e3133adcd},{914,0xa30e450b26d9c},{914,0xab24a7ce17faa},{914,0xb746cf242410b},{914,0xb9cfce007d2f7},{914,0xceb67e461f41a},{914,0xd8c99d5b0bc1e},{914,0xdc8fbc504d9df},{914,0xf11dc6ecddf1b},{914,0xf275e33972f09},{914,0xf939133265fba},{914,0xfa4c6b91f3731},{914,0xfa8fddb7d743c},{914,0xfd97c09e7c96e},
{915,0x6ef4147b8a9e},{915,0x11cce7386e5df},{915,0x230ec14a0dc74},{915,0x28a51eb53f41f},{915,0x2b138855ab5d2},{915,0x2d82196cded06},{915,0x35fcb5c3af0e9},{915,0x388042fd456e8},{915,0x47528869235ed},{915,0x4c4e977ba1f5b},{915,0x52be647f6cfd2},{915,0x54fec3296fc1d},{915,0x5cd7a285061b5},{915,0x63945c9b8d28d},{915,0x668e5db55bde8},{915,0x698ccdc600159},{915,0x744132b654ae5},{915,0x7d6695322cc28},{915,0x95c400ed3c5f8},{915,0x98e6e3133adcd},{915,0x9f623d5a8a732},{915,0xa30e450b26d9c},{915,0xab24a7ce17faa},{915,0xb746cf242410b},{915,0xb9cfce007d2f7},{915,0xbb4fd432495f1},{915,0xc44326234e389},{915,0xd2280baf1a431},{915,0xd2bdf7e4166fa},{915,0xd8c99d5b0bc1e},{915,0xdc8fbc504d9df},{915,0xebfa4445b9dcc},{915,0xf275e33972f09},{915,0xf5092f4745693},{915,0xfa4c6b91f3731},{915,0xfd97c09e7c96e},
{916,0xdffdb147397a},{916,0xfb8c8119d9ac},{916,0x28a51eb53f41f},{916,0x2b138855ab5d2},{916,0x2d82196cded06},{916,0x306571b71081e},{916,0x3f38f2c61d89b},{916,0x54fec3296fc1d},{916,0x5cd7a285061b5},{916,0x63945c9b8d28d},{916,0x668e5db55bde8},{916,0x698ccdc600159},{916,0x6e6f47a5457b6},{916,0x721b5f1d37434},{916,0x78e29fc816847},{916,0x7d6695322cc28},{916,0x92ef6f9c6363e},{916,0x95c400ed3c5f8},{916,0x98e6e3133adcd},{916,0x9a6dca6c6f1ec},{916,0x9f623d5a8a732},{916,0xa30e450b26d9c},{916,0xaf4afe86a2bf6},{916,0xb746cf242410b},{916,0xb9cfce007d2f7},{916,0xd2280baf1a431},{916,0xd56235f83b2b1},{916,0xd8c99d5b0bc1e},{916,0xe3ec0c98d70dd},{916,0xebfa4445b9dcc},{916,0xf275e33972f09},{916,0xf5a2a212c0b3d},{916,0xfa4c6b91f3731},
{917,0x2982a2dda71c},{917,0x5439b6669e35},{917,0xdffdb147397a},{917,0xfb8c8119d9ac},{917,0x1782f517a296f},{917,0x1c89b1b50f7a6},{917,0x23ce9d055d6bc},{917,0x26bfd56da8d2c},{917,0x2b138855ab5d2},{917,0x3cf05e612c957},{917,0x3f38f2c61d89b},{917,0x4df8b0891225e},{917,0x4fdb40824bace},{917,0x54fec3296fc1d},{917,0x5988975fa3693},{917,0x5feef63f05cf1},{917,0x63fbef8274724},{917,0x668e5db55bde8},{917,0x698ccdc600159},{917,0x6e6f47a5457b6},{917,0x721b5f1d37434},{917,0x78e29fc816847},{917,0x8355f7eae78d9},{917,0x8dc9500db896a},{917,0x995936e449d9f},{917,0xa30e450b26d9c},{917,0xb599c65315261},{917,0xb746cf242410b},{917,0xd6715f928fab2},{917,0xd8c99d5b0bc1e},{917,0xe3ec0c98d70dd},{917,0xe4b9bd3f818e1},{917,0xebfa4445b9dcc},{917,0xef2a8fb48819f},{917,0xef9faaa241368},{917,0xf275e33972f09},
{918,0x5439b6669e35},{918,0x586e956b3a5d},{918,0x6d89149cf4ce},{918,0xdffdb147397a},{918,0x1782f517a296f},{918,0x1ad4868ebd32a},{918,0x23ce9d055d6bc},{918,0x4af4fe114a578},{918,0x4ce4007319586},{918,0x4f153f3cd2601},{918,0x56b10c377f056},{918,0x5d3c69dd9f2b7},{918,0x5e66dc3d6bdb4},{918,0x5feef63f05cf1},{918,0x60d84fd627a58},{918,0x61c1a96d497bf},{918,0x668e5db55bde8},{918,0x6739c2f814829},{918,0x698ccdc600159},{918,0x6e6f47a5457b6},{918,0x78e29fc816847},{918,0x7974c2c6b9435},{918,0x8355f7eae78d9},{918,0x9f623d5a8a732},{918,0xa2e311ae5026d},{918,0xa30e450b26d9c},{918,0xb599c65315261},{918,0xb746cf242410b},{918,0xb796b098fcbb0},{918,0xb8714183f0c08},{918,0xe3ec0c98d70dd},{918,0xeb30f7e924ff3},{918,0xebd7694711e88},{918,0xebfa4445b9dcc},{918,0xedccf773fd89a},{918,0xf275e33972f09},
{919,0x39d66589687f},{919,0x5439b6669e35},{919,0x586e956b3a5d},{919,0xdffdb147397a},{919,0x103b6c7f66f5e},{919,0x12d375bbf41c8},{919,0x19eaa6cc878fb},{919,0x1a5dfc073cb37},{919,0x1d46cddec525a},{919,0x21357bae9be7f},{919,0x23ce9d055d6bc},{919,0x325873a5f94e8},{919,0x4e3aae51de5a9},{919,0x4f153f3cd2601},{919,0x5e1c4310c2223},{919,0x5e66dc3d6bdb4},{919,0x60d84fd627a58},{919,0x668e5db55bde8},{919,0x6e6f47a5457b6},{919,0x78e29fc816847},{919,0x7974c2c6b9435},{919,0x7a37158d78fea},{919,0x8355f7eae78d9},{919,0x9f623d5a8a732},{919,0xa2e311ae5026d},{919,0xb599c65315261},{919,0xb746cf242410b},{919,0xb796b098fcbb0},{919,0xb8714183f0c08},{919,0xca0b198e96da3},{919,0xcca7c74f94703},{919,0xce1d4aa7ed39b},{919,0xd47e71b167e35},{919,0xd5dc6b54e1ef8},{919,0xe3ec0c98d70dd},{919,0xe78e8240fe068},{919,0xebfa4445b9dcc},{919,0xedccf773fd89a},{919,0xf275e33972f09},{919,0xfe3544145e9d8},
{920,0x5439b6669e35},{920,0x586e956b3a5d},{920,0x671d43c6bbaf},{920,0x8601d9923137},{920,0x103b6c7f66f5e},{920,0x16cc335bbc0fd},{920,0x1a5dfc073cb37},{920,0x202c275d36731},{920,0x23ce9d055d6bc},{920,0x45db0ac205508},{920,0x4be143421d617},{920,0x4f153f3cd2601},{920,0x55bb8c17bec30},{920,0x5e66dc3d6bdb4},{920,0x60d84fd627a58},{920,0x62ab03046b526},{920,0x668e5db55bde8},{920,0x67fbe12d28ecc},{920,0x6c3e25695ffc5},{920,0x7974c2c6b9435},{920,0x8355f7eae78d9},{920,0x856c1984e1cbf},{920,0x85ae8fa32db92},{920,0x9f623d5a8a732},{920,0xa176dcab56af5},{920,0xa752a3a512979},{920,0xa96f85f82fefa},{920,0xb0f063be10581},{920,0xb599c65315261},{920,0xb746cf242410b},{920,0xc5e8c942f52c9},{920,0xca0b198e96da3},{920,0xcca7c74f94703},{920,0xd5dc6b54e1ef8},{920,0xe04996f0b0152},{920,0xebfa4445b9dcc},{920,0xf0890439630cf},{920,0xf275e33972f09},{920,0xfd12ae94a80e3},{920,0xfe3544145e9d8},
{921,0x39d66589687f},{921,0x671d43c6bbaf},{921,0x8601d9923137},{921,0x16cc335bbc0fd},{921,0x1974a2701add0},{921,0x1a5dfc073cb37},{921,0x202c275d36731},{921,0x23ce9d055d6bc},{921,0x4484bfeebc29f},{921,0x45db0ac205508},{921,0x46b9d08bfdf22},{921,0x4be143421d617},{921,0x54be965445927},{921,0x5e66dc3d6bdb4},{921,0x60d84fd627a58},{921,0x6189a8326c7f4},{921,0x62ab03046b526},{921,0x8355f7eae78d9},{921,0x856c1984e1cbf},{921,0x8951054b54b1d},{921,0xa52247a3629bd},{921,0xa752a3a512979},{921,0xa96f85f82fefa},{921,0xb599c65315261},{921,0xb5f527310869a},{921,0xb746cf242410b},{921,0xca0b198e96da3},{921,0xd5dc6b54e1ef8},{921,0xde9dd93a0b30f},{921,0xe04996f0b0152},{921,0xe76b845210ac9},{921,0xfe3544145e9d8},
{922,0x39d66589687f},{922,0xb7e013b61da1},{922,0x119a5213f0230},{922,0x14e5e27c71acd},{922,0x16cc335bbc0fd},{922,0x1a5dfc073cb37},{922,0x202c275d36731},{922,0x22ac14b1b0d12},{922,0x23ce9d055d6bc},{922,0x271d942d9431f},{922,0x3366a1cc6b315},{922,0x3e0fd2ba4317b},{922,0x3e7f981992556},{922,0x4484bfeebc29f},{922,0x45db0ac205508},{922,0x4be143421d617},{922,0x54be965445927},{922,0x5e66dc3d6bdb4},{922,0x60d84fd627a58},{922,0x62ab03046b526},{922,0x64988156766f0},{922,0x64f86cb9cefaf},{922,0x6632fcd7689af},{922,0x7d6ec006e78ec},{922,0x8355f7eae78d9},{922,0x856c1984e1cbf},{922,0x9a21a3c926e56},{922,0xa752a3a512979},{922,0xb599c65315261},{922,0xb5f527310869a},{922,0xb92b8efe95c9b},{922,0xc653731b076df},{922,0xca0b198e96da3},{922,0xd3454e0963e9d},{922,0xd5dc6b54e1ef8},{922,0xde9dd93a0b30f},{922,0xe04996f0b0152},{922,0xe8c8902307f8c},{922,0xf5119dc1def81},{922,0xfc7b3cffe8b60},{922,0xfe3544145e9d8},
{923,0x39d66589687f},{923,0x16cc335bbc0fd},{923,0x22ac14b1b0d12},{923,0x24111323a958f},{923,0x2bafa23ebf9dc},{923,0x3a755ed8be02c},{923,0x3d0b7e002c076},{923,0x3e7f981992556},{923,0x408978778e563},{923,0x4484bfeebc29f},{923,0x45db0ac205508},{923,0x4be143421d617},{923,0x54be965445927},{923,0x5b5e4cdba95f7},{923,0x5e66dc3d6bdb4},{923,0x62ab03046b526},{923,0x64f86cb9cefaf},{923,0x6632fcd7689af},{923,0x72b13b2faad7a},{923,0x7c44400349605},{923,0x7d6ec006e78ec},{923,0x8355f7eae78d9},{923,0x856c1984e1cbf},{923,0x9101f08cde04a},{923,0x9751cd7286a4a},{923,0x9a21a3c926e56},{923,0xa5dfc64ff49cf},{923,0xa752a3a512979},{923,0xab4da2fa25bbb},{923,0xad710c9eaa48a},{923,0xbdd2020da3162},{923,0xcbedd3ef3ad24},{923,0xd3454e0963e9d},{923,0xe04996f0b0152},{923,0xe8c8902307f8c},{923,0xfe3544145e9d8},
{924,0x1171865a7b1a6},{924,0x16cc335bbc0fd},{924,0x1d1fa969c4a67},{924,0x344ae98932c17},{924,0x3e7f981992556},{924,0x408978778e563},{924,0x4484bfeebc29f},{924,0x45db0ac205508},{924,0x54be965445927},{924,0x5e66dc3d6bdb4},{924,0x64f86cb9cefaf},{924,0x6e966c1a45fa9},{924,0x72b13b2faad7a},{924,0x7532431f58637},{924,0x7c44400349605},{924,0x7d2a9c94246db},{924,0x8355f7eae78d9},{924,0x85ebf46e0b11f},{924,0x89815341aaad6},{924,0x974c6b79d3125},{924,0x9751cd7286a4a},{924,0x9da0610a45527},{924,0xab4da2fa25bbb},{924,0xbdd2020da3162},{924,0xc1f1e9dbc62b5},{924,0xc79b9a509e511},{924,0xcbedd3ef3ad24},{924,0xde03a31100d9d},{924,0xe04996f0b0152},{924,0xfe3544145e9d8},
{925,0x1171865a7b1a6},{925,0x16cc335bbc0fd},{925,0x1f6acc44cc1a4},{925,0x2596279b8f3a1},{925,0x3e7f981992556},{925,0x421160c512f90},{925,0x4484bfeebc29f},{925,0x4ca1ab2180de3},{925,0x54be965445927},{925,0x5cdb81870a46b},{925,0x5d3d1f0389cb1},{925,0x5e66dc3d6bdb4},{925,0x64f86cb9cefaf},{925,0x8355f7eae78d9},{925,0x8d53e2aeb7191},{925,0x95a5efea6b347},{925,0x9751cd7286a4a},{925,0xa14fb83656302},{925,0xd3d28af6e5eeb},{925,0xd7f27e0faa763},{925,0xd9c9ff04aa582},{925,0xdc3b21574dbb0},{925,0xde03a31100d9d},{925,0xe115c83a3fe10},{925,0xe6c71fe61a3ef},{925,0xe74123910300e},{925,0xf88b939f8677c},{925,0xfe3544145e9d8},
{926,0xa88d1a6cc951},{926,0xd6ff84fab391},{926,0x173fdaccb5a18},{926,0x1bf427f0e4a4b},{926,0x2177be85ba9fa},{926,0x29c1738fc709b},{926,0x317d5a15e4fb7},{926,0x421160c512f90},{926,0x4484bfeebc29f},{926,0x4ca1ab2180de3},{926,0x50b020bae3385},{926,0x51606217d9d3e},{926,0x54be965445927},{926,0x561926fb225f9},{926,0x58cd0beda7ec9},{926,0x5cdb81870a46b},{926,0x5d3d1f0389cb1},{926,0x5e66dc3d6bdb4},{926,0x6d1557ec93af3},{926,0x754f5f2950ff4},{926,0x76b2c93a7ab8f},{926,0x8355f7eae78d9},{926,0x8aba8f708a1f8},{926,0x95a5efea6b347},{926,0x9751cd7286a4a},{926,0xb244e6d40b217},{926,0xb54b8dbdf5473},{926,0xbe3687e842b9b},{926,0xbf5bf7e5f1df7},{926,0xd4bf118cb9a15},{926,0xde425c23fee81},{926,0xe115c83a3fe10},{926,0xe74123910300e},{926,0xed6c7ee7c620b},{926,0xf0426b44f6658},{926,0xf9c335954c606},{926,0xfd2640cf284dc},{926,0xfe3544145e9d8},
{927,0xa88d1a6cc951},{927,0x159f0e404c98f},{927,0x2177be85ba9fa},{927,0x29c1738fc709b},{927,0x303c73efd0675},{927,0x317d5a15e4fb7},{927,0x3b7b44d9b4870},{927,0x421160c512f90},{927,0x4484bfeebc29f},{927,0x4d9bfa6b7ab9b},{927,0x50b020bae3385},{927,0x52b75b8794656},{927,0x53509fa3ebd76},{927,0x54be965445927},{927,0x56c5d120f6bf8},{927,0x58cd0beda7ec9},{927,0x5bd2b2e653c1a},{927,0x5e66dc3d6bdb4},{927,0x696689261d95d},{927,0x6d1557ec93af3},{927,0x754f5f2950ff4},{927,0x77d4bdd6ceec9},{927,0x815da3eb7f71d},{927,0x8355f7eae78d9},{927,0x8aba8f708a1f8},{927,0x910231078b15d},{927,0x926c5caa140e1},{927,0x9467830e2d9c6},{927,0x9751cd7286a4a},{927,0x9929e60504af4},{927,0x9980793c223d4},{927,0x9d02c3e72744d},{927,0xb244e6d40b217},{927,0xb54b8dbdf5473},{927,0xc906066dd45a8},{927,0xceb3c26b2a544},{927,0xcf3afc82bf3ef},{927,0xd0224a99e8a68},{927,0xe115c83a3fe10},{927,0xed6c7ee7c620b},{927,0xef3a6e7ec543a},{927,0xf0426b44f6658},{927,0xfd2640cf284dc},{927,0xfe3544145e9d8},{927,0xff9fb03194a6f},
{928,0xa88d1a6cc951},{928,0x159f0e404c98f},{928,0x1cf1f3f6b7882},{928,0x303c73efd0675},{928,0x3a6099ef4648a},{928,0x3b7b44d9b4870},{928,0x421160c512f90},{928,0x4484bfeebc29f},{928,0x4ea8e5ee320b4},{928,0x52b75b8794656},{928,0x53509fa3ebd76},{928,0x54be965445927},{928,0x56c5d120f6bf8},{928,0x58cd0beda7ec9},{928,0x5e66dc3d6bdb4},{928,0x5f689e624e0a4},{928,0x62f131ed1dcde},{928,0x67457f55ff20d},{928,0x6a88ee6d2c5bd},{928,0x6d1557ec93af3},{928,0x6d70daacc240a},{928,0x754f5f2950ff4},{928,0x8aba8f708a1f8},{928,0x910231078b15d},{928,0x926c5caa140e1},{928,0x95a5efea6b347},{928,0x9929e60504af4},{928,0x9980793c223d4},{928,0xb244e6d40b217},{928,0xc477e9c2745e8},{928,0xc4b628a4fd8a6},{928,0xc906066dd45a8},{928,0xceb3c26b2a544},{928,0xd0224a99e8a68},{928,0xd938e7468eca8},{928,0xe115c83a3fe10},{928,0xe74123910300e},{928,0xf0426b44f6658},{928,0xfb0f6be506019},{928,0xfd2640cf284dc},{928,0xfe3544145e9d8},{928,0xff9fb03194a6f},
{929,0x1089cd2be0e88},{929,0x13fb523fca9c2},{929,0x159f0e404c98f},{929,0x1cf1f3f6b7882},{929,0x2d73088f4050a},{929,0x303c73efd0675},{929,0x3b7b44d9b4870},{929,0x41f800a64ca87},{929,0x421160c512f90},{929,0x440fec4d7ab30},{929,0x4920a9900443b},{929,0x4ea8e5ee320b4},{929,0x4ff14f99e73a5},{929,0x54be965445927},{929,0x58cd0beda7ec9},{929,0x5f689e624e0a4},{929,0x62f131ed1dcde},{929,0x64887d8f9cef5},{929,0x6a88ee6d2c5bd},{929,0x6d70daacc240a},{929,0x6d9da3650bd42},{929,0x754f5f2950ff4},{929,0x8aba8f708a1f8},{929,0x926c5caa140e1},{929,0x95a5efea6b347},{929,0x968d4f544b17c},{929,0x9929e60504af4},{929,0xa74351738110d},{929,0xa7993c997f3f0},{929,0xaa2f2342ed1cb},{929,0xae476f98bb2c0},{929,0xaef00755011cd},{929,0xb244e6d40b217},{929,0xc4b628a4fd8a6},{929,0xc85aade7b89b0},{929,0xcdacca5bea766},{929,0xcdcb4e7a6c6f3},{929,0xceb3c26b2a544},{929,0xe74123910300e},{929,0xf0426b44f6658},{929,0xfd2640cf284dc},{929,0xfe3544145e9d8},{929,0xff9fb03194a6f},
{930,0x1089cd2be0e88},{930,0x1957a5d626ede},{930,0x1cf1f3f6b7882},{930,0x2747ad387d30c},{930,0x303c73efd0675},{930,0x339e63e603707},{930,0x440fec4d7ab30},{930,0x4920a9900443b},{930,0x4ea8e5ee320b4},{930,0x54be965445927},{930,0x58cd0beda7ec9},{930,0x62f131ed1dcde},{930,0x6ddbe24795000},{930,0x712ed621fda43},{930,0x754f5f2950ff4},{930,0x7db2c83207b29},{930,0x8363c4b50841b},{930,0x86d806fd849b2},{930,0x8a5a161021a8c},{930,0x8aba8f708a1f8},{930,0x95a5efea6b347},{930,0x9929e60504af4},{930,0xa17e14c29dbad},{930,0xa74351738110d},{930,0xa7993c997f3f0},{930,0xaa2f2342ed1cb},{930,0xae476f98bb2c0},{930,0xaef00755011cd},{930,0xb244e6d40b217},{930,0xb2a088dfbab60},{930,0xc4b628a4fd8a6},{930,0xceb3c26b2a544},{930,0xd4e769ba40e1d},{930,0xd5b6d833f1bce},{930,0xda7c49f4f9f7f},{930,0xe6d705760e905},{930,0xea6b59eaea5df},{930,0xf0426b44f6658},{930,0xfd2640cf284dc},{930,0xfd987564e379e},{930,0xfe3544145e9d8},{930,0xfe5bb70911c39},{930,0xff9fb03194a6f},
{931,0x15544324f354},{931,0xe9a3fdd70b16},{931,0x1089cd2be0e88},{931,0x1957a5d626ede},{931,0x1cf1f3f6b7882},{931,0x2c4b3f75168b7},{931,0x2d73088f4050a},{931,0x2eb3c911d0d07},{931,0x339e63e603707},{931,0x4920a9900443b},{931,0x4c4bd1410fefd},{931,0x54be965445927},{931,0x5be68f4fb0fcb},{931,0x62f131ed1dcde},{931,0x6ddbe24795000},{931,0x712ed621fda43},{931,0x7c4b90ebc4812},{931,0x7f76dccb99579},{931,0x8a5a161021a8c},{931,0x91f23abac7676},{931,0x97fbd783096a0},{931,0x9929e60504af4},{931,0xa061914f41f72},{931,0xaa2f2342ed1cb},{931,0xaef00755011cd},{931,0xb244e6d40b217},{931,0xb608932df9cec},{931,0xc0aa25a572852},{931,0xc42c8cd6e078f},{931,0xc4b628a4fd8a6},{931,0xca57e82da398c},{931,0xceb3c26b2a544},{931,0xd4e769ba40e1d},{931,0xd5b6d833f1bce},{931,0xda7c49f4f9f7f},{931,0xea438cf5eac46},{931,0xfae25039f5f95},{931,0xfb0f6be506019},{931,0xfd987564e379e},{931,0xff9fb03194a6f},
{932,0x15544324f354},{932,0xe9a3fdd70b16},{932,0x1089cd2be0e88},{932,0x1cf1f3f6b7882},{932,0x25e4c71add0a3},{932,0x27c3908c193e9},{932,0x2c4b3f75168b7},{932,0x2d73088f4050a},{932,0x4920a9900443b},{932,0x4c4bd1410fefd},{932,0x62f131ed1dcde},{932,0x712ed621fda43},{932,0x732052afe952b},{932,0x78cfcab31064c},{932,0x7f76dccb99579},{932,0x81cd996608d92},{932,0x8a5a161021a8c},{932,0x91f23abac7676},{932,0x958e105fe60b5},{932,0x9929e60504af4},{932,0x9bfc87aa14e14},{932,0x9cc5bbaa23533},{932,0xa553c42510d9b},{932,0xaa2f2342ed1cb},{932,0xaef00755011cd},{932,0xb244e6d40b217},{932,0xb608932df9cec},{932,0xbf8b467e96ff4},{932,0xc0aa25a572852},{932,0xc42c8cd6e078f},{932,0xc4b628a4fd8a6},{932,0xc7aef4084e6cb},{932,0xcc8df6250cd8e},{932,0xd4e769ba40e1d},{932,0xd5b6d833f1bce},{932,0xe3055588b0182},{932,0xea438cf5eac46},{932,0xfae25039f5f95},{932,0xfb0f6be506019},{932,0xff9fb03194a6f},
{933,0x198d8edfdc9e},{933,0xada5528b9d67},{933,0x102ca067d3598},{933,0x14aa2ca147eac},{933,0x29f0a15dd25cd},{933,0x2d73088f4050a},{933,0x30f56fc0ae446},{933,0x467295f9f9f47},{933,0x4b5e51fdbf7eb},{933,0x5637174c89eaa},{933,0x6c14d6f77415d},{933,0x732052afe952b},{933,0x78cfcab31064c},{933,0x7f76dccb99579},{933,0x81cd996608d92},{933,0x91f23abac7676},{933,0x9929e60504af4},{933,0x9bfc87aa14e14},{933,0xa193d97059fec},{933,0xa3fd66f4609b1},{933,0xa46b9571ed87d},{933,0xb244e6d40b217},{933,0xb608932df9cec},{933,0xbf8b467e96ff4},{933,0xc0aa25a572852},{933,0xc4b628a4fd8a6},{933,0xc7aef4084e6cb},{933,0xcc8df6250cd8e},{933,0xd4e769ba40e1d},{933,0xd5b6d833f1bce},{933,0xea438cf5eac46},{933,0xecf09b942a12f},{933,0xf874f6b0a22d1},{933,0xff9fb03194a6f},
{934,0x3810d7afaf90},{934,0x8f4f51d9611a},{934,0x102ca067d3598},{934,0x199577521eafa},{934,0x34cc503cff2e1},{934,0x41d50fede51da},{934,0x48913f749574f},{934,0x4b5e51fdbf7eb},{934,0x54ab43366c046},{934,0x5bd0b60dfbcc5},{934,0x661792ff03633},{934,0x74bff50de2308},{934,0x76ea949db859d},{934,0x78cfcab31064c},{934,0x7f76dccb99579},{934,0x8d31d211b531c},{934,0x91f23abac7676},{934,0x9929e60504af4},{934,0x9beb164a0153f},{934,0x9bfc87aa14e14},{934,0xa0eeaaa72eec1},{934,0xa193d97059fec},{934,0xb608932df9cec},{934,0xc399bc17f9596},{934,0xcc8df6250cd8e},{934,0xd0261011f2499},{934,0xd4e769ba40e1d},{934,0xd5b6d833f1bce},{934,0xdda888d39d5a2},{934,0xea438cf5eac46},{934,0xeb36f085ddd18},{934,0xecf09b942a12f},{934,0xf67f03509e597},{934,0xf874f6b0a22d1},
{935,0xaffb869cb900},{935,0xfd4f28589bd6},{935,0x16f6f901ffa1c},{935,0x2d73088f4050a},{935,0x311475e5f81c9},{935,0x326bf1cf1faef},{935,0x3ce9a36f23c0f},{935,0x41d50fede51da},{935,0x48fccf0928900},{935,0x4b5e51fdbf7eb},{935,0x54ab43366c046},{935,0x67b01c82105e5},{935,0x71cafc50347d3},{935,0x74bff50de2308},{935,0x76ea949db859d},{935,0x78cfcab31064c},{935,0x7f76dccb99579},{935,0x7fd49915ec4c5},{935,0x8c240c4aecb13},{935,0x9762d5c107984},{935,0x9929e60504af4},{935,0x9bfc87aa14e14},{935,0xa0eeaaa72eec1},{935,0xb608932df9cec},{935,0xbb69376c5104b},{935,0xc399bc17f9596},{935,0xc42c8cd6e078f},{935,0xdb5e7526b5a17},{935,0xdda888d39d5a2},{935,0xe0b8e200a1ebe},{935,0xe2bf97e4d7ac7},{935,0xea438cf5eac46},{935,0xecf09b942a12f},{935,0xf3ee012d671f2},{935,0xf67f03509e597},{935,0xf874f6b0a22d1},
{936,0x7343b7b366b9},{936,0xaffb869cb900},{936,0xfd4f28589bd6},{936,0x1d15ce7d933bd},{936,0x2d73088f4050a},{936,0x311475e5f81c9},{936,0x41d50fede51da},{936,0x46ed91c58e50e},{936,0x48fccf0928900},{936,0x54ab43366c046},{936,0x5cbc9127a0c68},{936,0x60681afbdc512},{936,0x667fc617fcb84},{936,0x74bff50de2308},{936,0x76ea949db859d},{936,0x78cfcab31064c},{936,0x7d0c3fbdba40e},{936,0x7f76dccb99579},{936,0x7fd49915ec4c5},{936,0x9762d5c107984},{936,0x9929e60504af4},{936,0xa0eeaaa72eec1},{936,0xa2eca10437d22},{936,0xabc4dd1fac654},{936,0xafcb21e1071d5},{936,0xb608932df9cec},{936,0xb6ac6322b008a},{936,0xbb69376c5104b},{936,0xc399bc17f9596},{936,0xcbb6d6fbe6a2c},{936,0xe7d819bc80dfb},{936,0xe87c09c2f945f},{936,0xea438cf5eac46},{936,0xf3ee012d671f2},{936,0xf7219f437c797},{936,0xf874f6b0a22d1},
{937,0xdae286bc80c},{937,0x1b7c71d2a7c88},{937,0x1d15ce7d933bd},{937,0x2329daf48272e},{937,0x311475e5f81c9},{937,0x3d3f72be7b9ac},{937,0x446150d9b9b74},{937,0x46709921a1ff2},{937,0x46ed91c58e50e},{937,0x4c624934043d7},{937,0x6fb2e9537b11f},{937,0x76267e5277356},{937,0x76ea949db859d},{937,0x78cfcab31064c},{937,0x7d0c3fbdba40e},{937,0x7f76dccb99579},{937,0x7fd49915ec4c5},{937,0x8e442ca2fb438},{937,0x924a53e95e650},{937,0x94d694d532fea},{937,0x9762d5c107984},{937,0x9929e60504af4},{937,0xa0eeaaa72eec1},{937,0xafcb21e1071d5},{937,0xb3a7e659d282a},{937,0xb608932df9cec},{937,0xb6ac6322b008a},{937,0xc399bc17f9596},{937,0xd623239379010},{937,0xdda7160d2e793},{937,0xe7d819bc80dfb},{937,0xe7d8efe80badb},{937,0xe87c09c2f945f},{937,0xea438cf5eac46},{937,0xf7219f437c797},{937,0xf874f6b0a22d1},
{938,0xdae286bc80c},{938,0x1b7c71d2a7c88},{938,0x1d15ce7d933bd},{938,0x2329daf48272e},{938,0x291b09383184e},{938,0x2d73088f4050a},{938,0x2e978256d9f8c},{938,0x311475e5f81c9},{938,0x3e0c0587fa27e},{938,0x3ebb5f8cfe2d0},{938,0x46ed91c58e50e},{938,0x4a261e42dc16a},{938,0x5f023c926113f},{938,0x7361cb863de62},{938,0x76267e5277356},{938,0x78cfcab31064c},{938,0x7f76dccb99579},{938,0x7fd49915ec4c5},{938,0x8c240c4aecb13},{938,0x924a53e95e650},{938,0xa0eeaaa72eec1},{938,0xa2265fe87a892},{938,0xa779772344b2e},{938,0xac17798b3a2bf},{938,0xb3a7e659d282a},{938,0xb608932df9cec},{938,0xb6ac6322b008a},{938,0xbc24c7e3473cb},{938,0xc42c8cd6e078f},{938,0xcef5b9a7dea38},{938,0xcf372e275b2ef},{938,0xd623239379010},{938,0xe17cf84be3105},{938,0xe7d8efe80badb},{938,0xea438cf5eac46},{938,0xea645aa855795},{938,0xef2d0f5da7dd8},
{939,0xdae286bc80c},{939,0x1b7c71d2a7c88},{939,0x1d15ce7d933bd},{939,0x2b22c5d395de4},{939,0x2d73088f4050a},{939,0x32d1480ac1ef9},{939,0x3e0c0587fa27e},{939,0x3ebb5f8cfe2d0},{939,0x46ed91c58e50e},{939,0x4a261e42dc16a},{939,0x4b45d33d602c8},{939,0x5f023c926113f},{939,0x5f93314f4baa1},{939,0x617af47af63db},{939,0x7361cb863de62},{939,0x76267e5277356},{939,0x78cfcab31064c},{939,0x7a5c345555184},{939,0x7fd49915ec4c5},{939,0x7ff8739cc8000},{939,0x873065bd30223},{939,0x8de5316f5a9ef},{939,0x9024a0eb2a8bd},{939,0x924a53e95e650},{939,0x98a8f636f1e51},{939,0x9dfcb07c99c48},{939,0xa2265fe87a892},{939,0xa779772344b2e},{939,0xac17798b3a2bf},{939,0xb3a7e659d282a},{939,0xb608932df9cec},{939,0xb6ac6322b008a},{939,0xb88221bad3656},{939,0xbf3da6e496bae},{939,0xc42c8cd6e078f},{939,0xdc9ca34ee4b3f},{939,0xe17cf84be3105},{939,0xe405b85ac1f94},{939,0xea438cf5eac46},{939,0xea645aa855795},{939,0xef2d0f5da7dd8},{939,0xf2fc91f00af90},{939,0xf7ea769cf0d4d},
{940,0xdae286bc80c},{940,0x1ef71ef51bcc},{940,0x1058c87382b9d},{940,0x1b7c71d2a7c88},{940,0x1d15ce7d933bd},{940,0x1f0d2aa29c0dc},{940,0x2b22c5d395de4},{940,0x3e0c0587fa27e},{940,0x43be409ec490d},{940,0x4b45d33d602c8},{940,0x4d4c341321d0f},{940,0x5f53cf61cf095},{940,0x617af47af63db},{940,0x6f655616b4307},{940,0x7361cb863de62},{940,0x78cfcab31064c},{940,0x7fd49915ec4c5},{940,0x9024a0eb2a8bd},{940,0x9579a51028251},{940,0x98a8f636f1e51},{940,0x9cfe557d4a657},{940,0xa2265fe87a892},{940,0xac17798b3a2bf},{940,0xb3a7e659d282a},{940,0xc1e4e1b195d82},{940,0xd3dbe01638b73},{940,0xd66ace98f9127},{940,0xe17cf84be3105},{940,0xe405b85ac1f94},{940,0xe73509818bb94},{940,0xf2fc91f00af90},{940,0xf7ea769cf0d4d},
{941,0xd05df5f3ffef},{941,0xf1bded013961},{941,0x1b7c71d2a7c88},{941,0x1d15ce7d933bd},{941,0x1f0d2aa29c0dc},{941,0x3d5f9e513110c},{941,0x3e0c0587fa27e},{941,0x4d4c341321d0f},{941,0x5f53cf61cf095},{941,0x6d255f9703514},{941,0x7361cb863de62},{941,0x78cfcab31064c},{941,0x7e854d197a01a},{941,0x7fd49915ec4c5},{941,0x847a35cf1d785},{941,0x9024a0eb2a8bd},{941,0x98a8f636f1e51},{941,0x9cfe557d4a657},{941,0xa2265fe87a892},{941,0xac17798b3a2bf},{941,0xb3a7e659d282a},{941,0xc1e4e1b195d82},{941,0xc3b96d0eb7a9c},{941,0xd4d47a895d80d},{941,0xe17cf84be3105},{941,0xe405b85ac1f94},{941,0xe7c4136125298},{941,0xef2d0f5da7dd8},{941,0xf7ea769cf0d4d},
{942,0xd05df5f3ffef},{942,0x11dc07b1427cf},{942,0x1d15ce7d933bd},{942,0x1d8672cd4f907},{942,0x1f0d2aa29c0dc},{942,0x1fa788204166c},{942,0x22ea790705d22},{942,0x23a475bd46e84},{942,0x2e4471ebb50ed},{942,0x357c299a88ea7},{942,0x3e0c0587fa27e},{942,0x4c6c895262870},{942,0x6099c5458b4b7},{942,0x6b044a44117af},{942,0x6d255f9703514},{942,0x7361cb863de62},{942,0x78cfcab31064c},{942,0x78f52483785e5},{942,0x7fd49915ec4c5},{942,0x82782afe1869e},{942,0x8eb3638c412ff},{942,0x9024a0eb2a8bd},{942,0x98a8f636f1e51},{942,0x9c05b0020686c},{942,0x9cfe557d4a657},{942,0xa0c49e80c6571},{942,0xa2265fe87a892},{942,0xac17798b3a2bf},{942,0xb1476d71f2e1d},{942,0xc3d91e0575fa2},{942,0xd4192298d1391},{942,0xd4d47a895d80d},{942,0xe405b85ac1f94},{942,0xef2d0f5da7dd8},{942,0xf7ea769cf0d4d},{942,0xfff339f763686},
{943,0xd05df5f3ffef},{943,0x101c5a850796a},{943,0x1d15ce7d933bd},{943,0x1d8672cd4f907},{943,0x1f0d2aa29c0dc},{943,0x22ea790705d22},{943,0x23a475bd46e84},{943,0x2e839338b93bc},{943,0x300567555ae48},{943,0x357c299a88ea7},{943,0x4b262246a1dc2},{943,0x4c6c895262870},{943,0x6099c5458b4b7},{943,0x6b044a44117af},{943,0x7361cb863de62},{943,0x78f52483785e5},{943,0x82782afe1869e},{943,0x877fa0260beb2},{943,0x8eb3638c412ff},{943,0x9024a0eb2a8bd},{943,0x9438a2e07a1bb},{943,0x99380c79ce73d},{943,0x9b9d74c5d9f02},{943,0x9c05b0020686c},{943,0x9ee179ff085e4},{943,0xa67476a5f0cef},{943,0xa6e4cf866aef9},{943,0xb1476d71f2e1d},{943,0xc3d91e0575fa2},{943,0xd4192298d1391},{943,0xd4d47a895d80d},{943,0xd529ad424a244},{943,0xdc04bc6e91b06},{943,0xec14c74512042},{943,0xf7ea769cf0d4d},{943,0xfab3ac38ecd23},
{944,0xdee745d8d1a},{944,0xd05df5f3ffef},{944,0x101c5a850796a},{944,0x197270d800009},{944,0x1d15ce7d933bd},{944,0x1d8672cd4f907},{944,0x1f0d2aa29c0dc},{944,0x22b31adf958db},{944,0x26f8b7dd34959},{944,0x27158dac7d514},{944,0x2e839338b93bc},{944,0x300567555ae48},{944,0x4b05798085cd1},{944,0x4b262246a1dc2},{944,0x4c17e53f667de},{944,0x56d589dc3d0e2},{944,0x5c283f2b99a5f},{944,0x5f43f6e66fe12},{944,0x639644b7d5907},{944,0x66058babb0b5a},{944,0x6885528023d34},{944,0x7361cb863de62},{944,0x78f52483785e5},{944,0x7d70b5d624e8a},{944,0x82782afe1869e},{944,0x877fa0260beb2},{944,0x89cceb1e7a101},{944,0x8eb3638c412ff},{944,0x9438a2e07a1bb},{944,0x99380c79ce73d},{944,0x9b9d74c5d9f02},{944,0x9ee179ff085e4},{944,0xa016fbc32dcf9},{944,0xa2a7c302844fe},{944,0xa6e4cf866aef9},{944,0xafbb4965a7f52},{944,0xbddca507e4383},{944,0xbef6e69ca5e41},{944,0xd4d47a895d80d},{944,0xdc04bc6e91b06},{944,0xdc97b2ce860ec},{944,0xfab3ac38ecd23},
{945,0xdee745d8d1a},{945,0x4a06fc44af25},{945,0xd05df5f3ffef},{945,0xecca46737cd2},{945,0x197270d800009},{945,0x1d8672cd4f907},{945,0x22b31adf958db},{945,0x259dbd0d1d0b5},{945,0x2e839338b93bc},{945,0x357c299a88ea7},{945,0x4b05798085cd1},{945,0x4c17e53f667de},{945,0x4dfb09c12476b},{945,0x56d589dc3d0e2},{945,0x58b33f35eb5ed},{945,0x5c283f2b99a5f},{945,0x6952e13656e3a},{945,0x7361cb863de62},{945,0x78f52483785e5},{945,0x7d70b5d624e8a},{945,0x82782afe1869e},{945,0x82db34012b251},{945,0x877fa0260beb2},{945,0x8eb3638c412ff},{945,0x8fc855f11897c},{945,0x8fecfa04f1a6f},{945,0x918e8a75f2eda},{945,0x9438a2e07a1bb},{945,0x9b9d74c5d9f02},{945,0xa6e4cf866aef9},{945,0xaef306dba5a49},{945,0xb260ba472793e},{945,0xbddca507e4383},{945,0xc4b387e297011},{945,0xc769b6ff70419},{945,0xc86eb77cc4259},{945,0xd4d47a895d80d},{945,0xd7f6f2a543ff2},{945,0xdc97b2ce860ec},{945,0xdf5298ef13c87},{945,0xe51643043ae46},{945,0xeb9e87c6024ea},{945,0xebcc500ad6c97},{945,0xfab3ac38ecd23},
{946,0xdee745d8d1a},{946,0x4a06fc44af25},{946,0xecca46737cd2},{946,0x197270d800009},{946,0x22b31adf958db},{946,0x259dbd0d1d0b5},{946,0x2e839338b93bc},{946,0x357c299a88ea7},{946,0x411737f6bad9a},{946,0x4b05798085cd1},{946,0x4e3bbb4e295a1},{946,0x56d589dc3d0e2},{946,0x576ac049da52c},{946,0x613e8a6617954},{946,0x64a6cf614e7b9},{946,0x7361cb863de62},{946,0x786940ae31676},{946,0x7d70b5d624e8a},{946,0x814e5ae8c53a7},{946,0x82782afe1869e},{946,0x877fa0260beb2},{946,0x8c87154dff6c6},{946,0x8fc855f11897c},{946,0x918e8a75f2eda},{946,0x9438a2e07a1bb},{946,0x9b68e4c5ae4b4},{946,0x9c5ff8fd0fda5},{946,0xa5ac5f15c0f2a},{946,0xa6e4cf866aef9},{946,0xb260ba472793e},{946,0xb70b59620d5c4},{946,0xbddca507e4383},{946,0xc4b387e297011},{946,0xc846445ed94e7},{946,0xc9588fc8a0dc8},{946,0xd154f09407d57},{946,0xd19bbbe4b7294},{946,0xd4d47a895d80d},{946,0xd7f6f2a543ff2},{946,0xdc97b2ce860ec},{946,0xdf5298ef13c87},{946,0xdfb39a0dc1e9a},{946,0xe51643043ae46},{946,0xeb9e87c6024ea},{946,0xf7547c43e4291},{946,0xfab3ac38ecd23},
{947,0xdee745d8d1a},{947,0xecca46737cd2},{947,0x1199e3bcd6978},{947,0x197270d800009},{947,0x22b31adf958db},{947,0x253a0c496e56a},{947,0x2b57b85260fde},{947,0x4116a1174f060},{947,0x411737f6bad9a},{947,0x4b05798085cd1},{947,0x56d589dc3d0e2},{947,0x5a3c81be7c5fe},{947,0x613e8a6617954},{947,0x6571c61ae48b1},{947,0x7361cb863de62},{947,0x73998b1d79754},{947,0x7aecfb422b280},{947,0x7d70b5d624e8a},{947,0x7ff4706a1ea94},{947,0x814e5ae8c53a7},{947,0x82782afe1869e},{947,0x84710f443502a},{947,0x84fbe592122a8},{947,0x877fa0260beb2},{947,0x89cfa2569f949},{947,0x8a035aba05abc},{947,0x8b20a70ffee29},{947,0x8c87154dff6c6},{947,0x8fc855f11897c},{947,0x9438a2e07a1bb},{947,0x9c5ff8fd0fda5},{947,0xa5ac5f15c0f2a},{947,0xa6e4cf866aef9},{947,0xa9b375b76c188},{947,0xb260ba472793e},{947,0xb70b59620d5c4},{947,0xbddca507e4383},{947,0xbed1a8dd8278e},{947,0xc18614ba3b6ed},{947,0xc846445ed94e7},{947,0xc9588fc8a0dc8},{947,0xd154f09407d57},{947,0xdc97b2ce860ec},{947,0xeb9e87c6024ea},{947,0xf2e788894c51d},{947,0xf7483acb936dc},{947,0xf7547c43e4291},{947,0xfab3ac38ecd23},
{948,0xdee745d8d1a},{948,0xecca46737cd2},{948,0x1199e3bcd6978},{948,0x1ea6f11ced442},{948,0x22b31adf958db},{948,0x2c99f5e801801},{948,0x354d1eec466b2},{948,0x3a9a3995aef7d},{948,0x4116a1174f060},{948,0x52deb83c4ec0d},{948,0x56d589dc3d0e2},{948,0x66cf26a25d230},{948,0x7361cb863de62},{948,0x73998b1d79754},{948,0x7eb2932021c8f},{948,0x7ff4706a1ea94},{948,0x81364db41b899},{948,0x82782afe1869e},{948,0x82db34012b251},{948,0x83ba0848154a3},{948,0x84710f443502a},{948,0x84fbe592122a8},{948,0x863dc2dc0f0ad},{948,0x8c87154dff6c6},{948,0x8fc855f11897c},{948,0x9316720dc4f53},{948,0x9919ba31e02f8},{948,0xa4de8932c4b00},{948,0xa5ac5f15c0f2a},{948,0xa9b375b76c188},{948,0xb260ba472793e},{948,0xba9d71f7b2b82},{948,0xbddca507e4383},{948,0xcfa3370fea68a},{948,0xd154f09407d57},{948,0xd34e2bdf3b29a},{948,0xdb25b17045069},{948,0xe392010175ee5},{948,0xf2e788894c51d},{948,0xf7483acb936dc},
{949,0x9ff02d6b5844},{949,0xeb798e35d6bc},{949,0xecca46737cd2},{949,0x1199e3bcd6978},{949,0x29decfc113c93},{949,0x354d1eec466b2},{949,0x36372cb4d801f},{949,0x3a9a3995aef7d},{949,0x4116a1174f060},{949,0x4738090d75437},{949,0x49535ae00ac18},{949,0x4da9dcda9b9cc},{949,0x5180e31b985b0},{949,0x56d589dc3d0e2},{949,0x5be2a4f52f6a8},{949,0x6a16899289fda},{949,0x6c8dd86891aca},{949,0x6f2d67f9a3ea3},{949,0x7361cb863de62},{949,0x79ab1df82e47b},{949,0x7d9a2c698239c},{949,0x7ff4706a1ea94},{949,0x81364db41b899},{949,0x82782afe1869e},{949,0x83ba0848154a3},{949,0x85f79514db66a},{949,0x863dc2dc0f0ad},{949,0x8c87154dff6c6},{949,0x8fc855f11897c},{949,0x92d067bfefcdf},{949,0x93a6d11077292},{949,0xa4de8932c4b00},{949,0xa90db10701694},{949,0xa9b375b76c188},{949,0xaa4e436400320},{949,0xaea6e33ba211b},{949,0xafbdfd953bb41},{949,0xb3369a815089b},{949,0xbddca507e4383},{949,0xcb644dc1633c0},{949,0xcfa3370fea68a},{949,0xd154f09407d57},{949,0xd34e2bdf3b29a},{949,0xdb25b17045069},{949,0xe392010175ee5},{949,0xf2e788894c51d},{949,0xfe602ef8cbf1b},
{950,0x1199e3bcd6978},{950,0x207843efe9f9d},{950,0x256799cdae7c4},{950,0x29decfc113c93},{950,0x2e3b40a0e9b4f},{950,0x3ba6e6e613840},{950,0x4116a1174f060},{950,0x4738090d75437},{950,0x4897e1f0baead},{950,0x4da9dcda9b9cc},{950,0x5180e31b985b0},{950,0x56d589dc3d0e2},{950,0x5be2a4f52f6a8},{950,0x6a16899289fda},{950,0x6c8dd86891aca},{950,0x6d1879144d849},{950,0x6f2d67f9a3ea3},{950,0x7013b1c30590f},{950,0x79ab1df82e47b},{950,0x7d9a2c698239c},{950,0x7ff4706a1ea94},{950,0x82782afe1869e},{950,0x828a570aacbdd},{950,0x862cfcb0a6293},{950,0x863dc2dc0f0ad},{950,0x8c87154dff6c6},{950,0x93a6d11077292},{950,0x95c2ee028ce99},{950,0x9eb25ab8e293a},{950,0xa90db10701694},{950,0xa9b375b76c188},{950,0xaa4e436400320},{950,0xabf5b187b1543},{950,0xb3369a815089b},{950,0xbddca507e4383},{950,0xcb644dc1633c0},{950,0xd5ccbf0555f74},{950,0xdeea148a58c80},{950,0xe392010175ee5},{950,0xedb308445f0e4},{950,0xf2e788894c51d},{950,0xfe602ef8cbf1b},
{951,0x7c6c03d1b83d},{951,0xbe5bb103dc91},{951,0x207843efe9f9d},{951,0x21307ce9653dd},{951,0x22025be7d1eb7},{951,0x256799cdae7c4},{951,0x2e3b40a0e9b4f},{951,0x3ba6e6e613840},{951,0x4116a1174f060},{951,0x4738090d75437},{951,0x5180e31b985b0},{951,0x53241bbc47f2a},{951,0x5be2a4f52f6a8},{951,0x64e1300c1100a},{951,0x678d87c28d4a6},{951,0x6aad80c11872c},{951,0x6c8dd86891aca},{951,0x6d1879144d849},{951,0x6f2d67f9a3ea3},{951,0x75b2723da79c0},{951,0x7d9a2c698239c},{951,0x7ff4706a1ea94},{951,0x80a39ed124790},{951,0x82782afe1869e},{951,0x828a570aacbdd},{951,0x862cfcb0a6293},{951,0x863dc2dc0f0ad},{951,0x8c87154dff6c6},{951,0x93a6d11077292},{951,0x9e81773b74617},{951,0xa4de8932c4b00},{951,0xa9b375b76c188},{951,0xaa4e436400320},{951,0xabf5b187b1543},{951,0xb7eb33e7be1b7},{951,0xbddca507e4383},{951,0xbfc01a5e6107e},{951,0xc00d2c28ee3a2},{951,0xc1aa157af4c1d},{951,0xcb644dc1633c0},{951,0xd5ccbf0555f74},{951,0xdeea148a58c80},{951,0xe2edfa145ee85},{951,0xe392010175ee5},{951,0xe9ded2baa0d04},{951,0xedb308445f0e4},{951,0xf92ef3051bb29},{951,0xfe602ef8cbf1b},
{952,0x70b15bfbaee0},{952,0x7c6c03d1b83d},{952,0x207843efe9f9d},{952,0x20c07e9dd50b2},{952,0x22025be7d1eb7},{952,0x256799cdae7c4},{952,0x298ee20ed9864},{952,0x2e3b40a0e9b4f},{952,0x3ba6e6e613840},{952,0x3f9d282754303},{952,0x4738090d75437},{952,0x491ec146fd884},{952,0x53241bbc47f2a},{952,0x5352a05048118},{952,0x64e1300c1100a},{952,0x6c8dd86891aca},{952,0x6d1879144d849},{952,0x6f2d67f9a3ea3},{952,0x7042b80c6c1a0},{952,0x7293da1607c21},{952,0x7d9a2c698239c},{952,0x80a39ed124790},{952,0x82782afe1869e},{952,0x828a570aacbdd},{952,0x88a07ebcfcb17},{952,0x8c87154dff6c6},{952,0x90005ad0d3e70},{952,0x93a6d11077292},{952,0x9e81773b74617},{952,0x9ead2363f1a0d},{952,0xa0337e09487b0},{952,0xa4de8932c4b00},{952,0xa94a1c2838077},{952,0xa9b375b76c188},{952,0xaa4e436400320},{952,0xc49c2bf72c7d0},{952,0xcb644dc1633c0},{952,0xdeea148a58c80},{952,0xe2edfa145ee85},{952,0xe392010175ee5},{952,0xe571b4a858a8f},{952,0xe9ded2baa0d04},{952,0xf92ef3051bb29},{952,0xf937fd1d85130},{952,0xfe602ef8cbf1b},
{953,0x70b15bfbaee0},{953,0x7c6c03d1b83d},{953,0xcfc6a28cfffc},{953,0x1ad60dbe52cf5},{953,0x1f70c7de03bf7},{953,0x207843efe9f9d},{953,0x20c07e9dd50b2},{953,0x2158fe52e7390},{953,0x256799cdae7c4},{953,0x2d532381b5ce4},{953,0x2e3b40a0e9b4f},{953,0x3ba6e6e613840},{953,0x3f9d282754303},{953,0x4738090d75437},{953,0x4c80927593f8c},{953,0x55f4cf793fcf0},{953,0x5c87356f12d2b},{953,0x64e1300c1100a},{953,0x6c8dd86891aca},{953,0x82782afe1869e},{953,0x828a570aacbdd},{953,0x88a07ebcfcb17},{953,0x88e6a0d12fd1a},{953,0x8c87154dff6c6},{953,0x93a6d11077292},{953,0x9ead2363f1a0d},{953,0xb8287c5b4b69c},{953,0xbe45a312d089f},{953,0xc49c2bf72c7d0},{953,0xcac66cb1db7f9},{953,0xcb644dc1633c0},{953,0xd1c32040c2a28},{953,0xd234cb19b894a},{953,0xde52e905ce3dd},{953,0xdeea148a58c80},{953,0xe392010175ee5},{953,0xebbb071a490a8},{953,0xec1108d3eeed8},{953,0xeca324397cf13},{953,0xf4a8fd4f46d02},{953,0xf92ef3051bb29},{953,0xf937fd1d85130},{953,0xfb5be52c6fc00},
{954,0x1ad60dbe52cf5},{954,0x207843efe9f9d},{954,0x2d5c5281ea0fe},{954,0x2e3b40a0e9b4f},{954,0x474f17ebd3d4d},{954,0x5c87356f12d2b},{954,0x64e1300c1100a},{954,0x6c8dd86891aca},{954,0x7123726f69592},{954,0x72e84793a41b2},{954,0x82782afe1869e},{954,0x88a07ebcfcb17},{954,0x88e6a0d12fd1a},{954,0x93a6d11077292},{954,0x9ae6161629419},{954,0xaa567b0be87f4},{954,0xbe45a312d089f},{954,0xbeea08154414f},{954,0xc1cea0eee8b87},{954,0xca800efc4e10a},{954,0xcac66cb1db7f9},{954,0xdeea148a58c80},{954,0xe57d8eaf23dac},{954,0xec1108d3eeed8},{954,0xee598bff4d17c},{954,0xf2a482f8ba004},{954,0xf4a8fd4f46d02},{954,0xf92ef3051bb29},{954,0xf937fd1d85130},{954,0xffcb77425025c},
{955,0x70b15bfbaee0},{955,0x7f3bf293948d},{955,0x17a8d628c9981},{955,0x207843efe9f9d},{955,0x2d5c5281ea0fe},{955,0x2e3b40a0e9b4f},{955,0x46064de6ecbed},{955,0x474f17ebd3d4d},{955,0x48cddb2fa9a98},{955,0x5c87356f12d2b},{955,0x64e1300c1100a},{955,0x6c8dd86891aca},{955,0x7123726f69592},{955,0x72c2676e9abcd},{955,0x79ca10c924223},{955,0x82782afe1869e},{955,0x8a90a09f98650},{955,0x93a6d11077292},{955,0x9ae6161629419},{955,0x9d6d0f3a70884},{955,0xaeae08e54d084},{955,0xbe45a312d089f},{955,0xc1cea0eee8b87},{955,0xc558e0f15e8f7},{955,0xcc53660f87208},{955,0xeb4dbba291f66},
{956,0x5ced8f1ca72d},{956,0x70b15bfbaee0},{956,0x873d88ccc7e5},{956,0x13c9b2de46c99},{956,0x1ba15ba3b51d2},{956,0x207843efe9f9d},{956,0x27ec7877b24bc},{956,0x2d5c5281ea0fe},{956,0x2e3b40a0e9b4f},{956,0x3568d1d7ef41e},{956,0x46064de6ecbed},{956,0x48cddb2fa9a98},{956,0x5402a8b506eb9},{956,0x5b3e3ff2bbdf8},{956,0x5c87356f12d2b},{956,0x608191c9309c8},{956,0x64e1300c1100a},{956,0x6502cabe1410f},{956,0x69af3de7a1074},{956,0x6af73c9dcd110},{956,0x6c8dd86891aca},{956,0x707631fe8b003},{956,0x7123726f69592},{956,0x72c2676e9abcd},{956,0x79ca10c924223},{956,0x82ca5d7f522f6},{956,0x93a6d11077292},{956,0x949cc3a438e00},{956,0x9bca54db3e6cf},{956,0xbe45a312d089f},{956,0xc02be55f40f54},{956,0xc1cea0eee8b87},{956,0xc5e34d9cded00},{956,0xe3e4aaf80f530},{956,0xe623f320a09f5},{956,0xeb4dbba291f66},{956,0xefc5de4565c45},{956,0xf9c0e8a64ee48},
{957,0x5ced8f1ca72d},{957,0x70b15bfbaee0},{957,0x873d88ccc7e5},{957,0x13c9b2de46c99},{957,0x177bc71bb69ce},{957,0x1b578c96db19a},{957,0x1b9669cf4e7d7},{957,0x1ba15ba3b51d2},{957,0x1f99e11ea0a23},{957,0x207843efe9f9d},{957,0x2699652196261},{957,0x27ec7877b24bc},{957,0x2d5c5281ea0fe},{957,0x2e3b40a0e9b4f},{957,0x3568d1d7ef41e},{957,0x385d29d3adfaa},{957,0x411ef4aaf8504},{957,0x43460d2670c33},{957,0x46064de6ecbed},{957,0x5402a8b506eb9},{957,0x5b3e3ff2bbdf8},{957,0x5c87356f12d2b},{957,0x64e1300c1100a},{957,0x6502cabe1410f},{957,0x6edb35786a24b},{957,0x7123726f69592},{957,0x93a6d11077292},{957,0x949cc3a438e00},{957,0x9bca54db3e6cf},{957,0xbbc5be04433e1},{957,0xbe45a312d089f},{957,0xc1cea0eee8b87},{957,0xc4df3187bece9},{957,0xe170c5e106b5c},{957,0xeb4dbba291f66},{957,0xefc5de4565c45},{957,0xf9c0e8a64ee48},
{958,0x7663c727df94},{958,0x13c9b2de46c99},{958,0x1b578c96db19a},{958,0x1b9669cf4e7d7},{958,0x1ba15ba3b51d2},{958,0x1f99e11ea0a23},{958,0x2699652196261},{958,0x2b87e0025bc66},{958,0x2e3b40a0e9b4f},{958,0x43460d2670c33},{958,0x48cddb2fa9a98},{958,0x5b3e3ff2bbdf8},{958,0x5c87356f12d2b},{958,0x64e1300c1100a},{958,0x6502cabe1410f},{958,0x6eefc218b8961},{958,0x743403083f6f4},{958,0x79ca10c924223},{958,0x80668fcca93ef},{958,0x85ae240a5a20e},{958,0x93a6d11077292},{958,0x9b0151fb9413e},{958,0xa328faf68bdb3},{958,0xaa7f944c85620},{958,0xbbc5be04433e1},{958,0xbe45a312d089f},{958,0xc1cea0eee8b87},{958,0xd286fd9af25a2},{958,0xd83c94fb6d2ac},{958,0xe5f0938fdc83e},{958,0xed34c8c77e7e4},{958,0xf9c0e8a64ee48},
{959,0x7663c727df94},{959,0x13c9b2de46c99},{959,0x1b578c96db19a},{959,0x1ba15ba3b51d2},{959,0x1eeffba37eeec},{959,0x1f99e11ea0a23},{959,0x1fb41fc9b4745},{959,0x2699652196261},{959,0x2e3b40a0e9b4f},{959,0x43460d2670c33},{959,0x4744d19bac9c2},{959,0x48cddb2fa9a98},{959,0x5b3e3ff2bbdf8},{959,0x64e1300c1100a},{959,0x6502cabe1410f},{959,0x6eefc218b8961},{959,0x71e796959edeb},{959,0x72b4ad455ea7f},{959,0x743403083f6f4},{959,0x79ca10c924223},{959,0x80c8f799c8d08},{959,0x85ae240a5a20e},{959,0x8a809492afb9a},{959,0x93a6d11077292},{959,0x969ab295c4900},{959,0x96e29ec6d71cd},{959,0x9b0151fb9413e},{959,0xa328faf68bdb3},{959,0xb72e19e9d39af},{959,0xbbc5be04433e1},{959,0xbe45a312d089f},{959,0xc1cea0eee8b87},{959,0xd2203e796a234},{959,0xd286fd9af25a2},{959,0xe5f0938fdc83e},{959,0xe7a4d6a375636},{959,0xeb65024edb73c},{959,0xf9c0e8a64ee48},
{960,0xb274216b9d9b},{960,0x13c9b2de46c99},{960,0x1b578c96db19a},{960,0x1ba15ba3b51d2},{960,0x1eeffba37eeec},{960,0x1f99e11ea0a23},{960,0x1fb41fc9b4745},{960,0x2699652196261},{960,0x2e3b40a0e9b4f},{960,0x3440fd7caf0ee},{960,0x38d54a79c1e7a},{960,0x3fa8cb7d78eee},{960,0x48cddb2fa9a98},{960,0x4991ff55df2f0},{960,0x4e35299ebef6d},{960,0x5b3e3ff2bbdf8},{960,0x5d5ab8e2a4441},{960,0x6502cabe1410f},{960,0x686f435fe6b6b},{960,0x6bdbbc01b95c7},{960,0x71e796959edeb},{960,0x72b4ad455ea7f},{960,0x7337840e7e4f3},{960,0x8674744899794},{960,0x9166b1d5b6645},{960,0x969ab295c4900},{960,0xa328faf68bdb3},{960,0xbbc5be04433e1},{960,0xbda5d3d9f6464},{960,0xbe45a312d089f},{960,0xc9780a6cffefc},{960,0xd286fd9af25a2},{960,0xd2a5553eb5d4d},{960,0xe5f0938fdc83e},{960,0xe7a4d6a375636},{960,0xeb65024edb73c},{960,0xec70a4a148f8b},{960,0xefd93607ff6ce},{960,0xf58291e77705b},{960,0xf8f36a633e76c},
{961,0x13c9b2de46c99},{961,0x1b578c96db19a},{961,0x1ba15ba3b51d2},{961,0x1f99e11ea0a23},{961,0x29820ba9d9d28},{961,0x3440fd7caf0ee},{961,0x38d54a79c1e7a},{961,0x3fa8cb7d78eee},{961,0x5077f6f3242e7},{961,0x622d6fbc91e01},{961,0x686f435fe6b6b},{961,0x6bdbbc01b95c7},{961,0x6f480fc811249},{961,0x72b4ad455ea7f},{961,0x7337840e7e4f3},{961,0x8598614f6d434},{961,0x8b303f8285153},{961,0x972c9d3c88783},{961,0x9b0151fb9413e},{961,0xa328faf68bdb3},{961,0xbe45a312d089f},{961,0xbe4fe962f7c2a},{961,0xc9780a6cffefc},{961,0xd286fd9af25a2},{961,0xd2a5553eb5d4d},{961,0xd83c94fb6d2ac},{961,0xe5bd33ff18687},{961,0xe5f0938fdc83e},{961,0xeb65024edb73c},{961,0xf8f36a633e76c},{961,0xfba7868e488df},
{962,0x860336b286f2},{962,0x13c9b2de46c99},{962,0x1f99e11ea0a23},{962,0x2725dd1d243ab},{962,0x29987c9016fed},{962,0x33d0f5569b39b},{962,0x3440fd7caf0ee},{962,0x47072bbac1480},{962,0x5077f6f3242e7},{962,0x52c8370c85754},{962,0x53a9985dbde6b},{962,0x5ee3012f0f4f2},{962,0x6196521c416b3},{962,0x686f435fe6b6b},{962,0x6a257fb0d0099},{962,0x6f480fc811249},{962,0x72b4ad455ea7f},{962,0x7337840e7e4f3},{962,0x83832ef948487},{962,0x87b94f9cdb2b3},{962,0x8b303f8285153},{962,0x9058d10efc03d},{962,0x972c9d3c88783},{962,0x98e45a6e802f3},{962,0x9b0151fb9413e},{962,0x9d35025bff856},{962,0xa8a6527536b7b},{962,0xd2a5553eb5d4d},{962,0xe5bd33ff18687},{962,0xe5f0938fdc83e},{962,0xeb132d52a02d3},{962,0xeb65024edb73c},{962,0xefd8be1b15b43},{962,0xf719258de108c},{962,0xf8f36a633e76c},{962,0xfba7868e488df},
{963,0x12c390b511230},{963,0x13c9b2de46c99},{963,0x1e5b930334951},{963,0x1f99e11ea0a23},{963,0x209abef2752b6},{963,0x27506e680bbd9},{963,0x29987c9016fed},{963,0x2eecbd066306e},{963,0x3440fd7caf0ee},{963,0x36485e50f9c5f},{963,0x3bdd4c1b06583},{963,0x43809b76628c6},{963,0x44a9a66cdb0d6},{963,0x506a29ce00f2c},{963,0x5077f6f3242e7},{963,0x52c8370c85754},{963,0x53a9985dbde6b},{963,0x6196521c416b3},{963,0x64f70780fb8d6},{963,0x686f435fe6b6b},{963,0x694a61885b602},{963,0x6a257fb0d0099},{963,0x7337840e7e4f3},{963,0x87b94f9cdb2b3},{963,0x8cc714aad9d11},{963,0x912e6e5f86c6b},{963,0x95ad1185480bd},{963,0x972c9d3c88783},{963,0x9b0151fb9413e},{963,0xa2ee6ca69a120},{963,0xa60fbec0b65e3},{963,0xaf2558b08f3e3},{963,0xbab8cbabb6581},{963,0xcee529934fc47},{963,0xd2a5553eb5d4d},{963,0xe5f0938fdc83e},{963,0xeb65024edb73c},{963,0xefd8be1b15b43},{963,0xf8f36a633e76c},{963,0xfc6d66042d10d},
{964,0x3b49055efec4},{964,0xfaaf5fcd284b},{964,0x1a8c1c10a1fc5},{964,0x1f99e11ea0a23},{964,0x27506e680bbd9},{964,0x29987c9016fed},{964,0x36485e50f9c5f},{964,0x3bdd4c1b06583},{964,0x43809b76628c6},{964,0x506a29ce00f2c},{964,0x5077f6f3242e7},{964,0x52c8370c85754},{964,0x53a9985dbde6b},{964,0x64f70780fb8d6},{964,0x65dde8e688ba6},{964,0x686f435fe6b6b},{964,0x6a257fb0d0099},{964,0x70ef54646d496},{964,0x7337840e7e4f3},{964,0x7b43dad9ed465},{964,0x87b94f9cdb2b3},{964,0x8cc714aad9d11},{964,0x912e6e5f86c6b},{964,0x942d85ce079f7},{964,0x95ad1185480bd},{964,0x972c9d3c88783},{964,0x9f169cadb0748},{964,0xa2ee6ca69a120},{964,0xaf2558b08f3e3},{964,0xb9422454f91cc},{964,0xbab8cbabb6581},{964,0xbbc906dbf86fb},{964,0xc53f14758ee9b},{964,0xcbb75bffe0925},{964,0xd9cbf22889844},{964,0xe0b8dedbf1ba8},{964,0xe5f0938fdc83e},{964,0xeb65024edb73c},{964,0xee58cfdb841ee},{964,0xf8f36a633e76c},{964,0xfc6d66042d10d},
{965,0x66dff4498af7},{965,0x193bd83f62cba},{965,0x1a8c1c10a1fc5},{965,0x1f99e11ea0a23},{965,0x22f9aa26e6255},{965,0x2725dd1d243ab},{965,0x29987c9016fed},{965,0x2cb804b61b898},{965,0x3624e7dcb4724},{965,0x36485e50f9c5f},{965,0x39a1bcbe2f447},{965,0x52c8370c85754},{965,0x53a9985dbde6b},{965,0x5fa2c70aaf855},{965,0x64f70780fb8d6},{965,0x65dde8e688ba6},{965,0x6a257fb0d0099},{965,0x6db173fd4c88f},{965,0x70ef54646d496},{965,0x7337840e7e4f3},{965,0x78ef69dd1af4e},{965,0x7b43dad9ed465},{965,0x87b94f9cdb2b3},{965,0x8cc714aad9d11},{965,0x912e6e5f86c6b},{965,0x942d85ce079f7},{965,0x95ad1185480bd},{965,0x972c9d3c88783},{965,0xa029e3880b027},{965,0xa501a032268d5},{965,0xaa20974d6f89b},{965,0xb0b236c2944f1},{965,0xbab8cbabb6581},{965,0xc4c799fab4328},{965,0xcbb75bffe0925},{965,0xd0dba2a77f761},{965,0xe0b8dedbf1ba8},{965,0xe5f0938fdc83e},{965,0xeb65024edb73c},{965,0xf25fa0a215072},{965,0xfc6d66042d10d},{965,0xfeb3b678ef146},{965,0xff020d4511a5d},
{966,0xbb945a0bcaa0},{966,0xe6ed64cfb9e3},{966,0x1a8c1c10a1fc5},{966,0x22f9aa26e6255},{966,0x2725dd1d243ab},{966,0x2ca1043beff5a},{966,0x2cb804b61b898},{966,0x39a1bcbe2f447},{966,0x46a5aa8df6959},{966,0x4997127b0d669},{966,0x53a9985dbde6b},{966,0x577474e2556bc},{966,0x5a2b8f45a18f4},{966,0x5fa2c70aaf855},{966,0x60ad862d8537d},{966,0x64f70780fb8d6},{966,0x65dbd074d0351},{966,0x65dde8e688ba6},{966,0x6db173fd4c88f},{966,0x70ef54646d496},{966,0x7337840e7e4f3},{966,0x78ef69dd1af4e},{966,0x7aa7ec47fbc89},{966,0x86b871c906a20},{966,0x8cc714aad9d11},{966,0x912e6e5f86c6b},{966,0x94ed4ba9a7d5a},{966,0x95ad1185480bd},{966,0x966cd760e8420},{966,0x98ac28f3c8e49},{966,0xb0b236c2944f1},{966,0xbab8cbabb6581},{966,0xbe20cdd91379f},{966,0xbe34c9613a70b},{966,0xc4c799fab4328},{966,0xc5e490f7f5bb7},{966,0xcbb75bffe0925},{966,0xd5d0e27b8711f},{966,0xdf6e9ca7f8db5},{966,0xe0b8dedbf1ba8},{966,0xe6bc813d2cd59},{966,0xeb65024edb73c},{966,0xf50c5c63e5441},{966,0xff020d4511a5d},
{967,0x68e4e484463},{967,0x4f7fc5169993},{967,0xe935752cabb9},{967,0x1295f34ed9511},{967,0x19525011dc550},{967,0x1a8c1c10a1fc5},{967,0x28706debd43a5},{967,0x2ca1043beff5a},{967,0x2cb804b61b898},{967,0x371ada372ff18},{967,0x46a5aa8df6959},{967,0x4997127b0d669},{967,0x4d27a175da3e2},{967,0x53a9985dbde6b},{967,0x59b83b3f9115c},{967,0x5a2b8f45a18f4},{967,0x5e35be31a87c9},{967,0x60ad862d8537d},{967,0x65dbd074d0351},{967,0x65dde8e688ba6},{967,0x672f7d1568e06},{967,0x703856844bdbe},{967,0x70ef54646d496},{967,0x7337840e7e4f3},{967,0x86b871c906a20},{967,0x882a7ee6a1ea3},{967,0x8c03034565b4b},{967,0x8cc714aad9d11},{967,0x8e69e540f7b72},{967,0x94bd3d6ca27c5},{967,0x94ed4ba9a7d5a},{967,0x95ad1185480bd},{967,0x98ac28f3c8e49},{967,0xa32fa423ee2d7},{967,0xa34b63e13d3a7},{967,0xb0b236c2944f1},{967,0xb7738011e75fe},{967,0xbab8cbabb6581},{967,0xbe20cdd91379f},{967,0xbe34c9613a70b},{967,0xcb52ece88d2e9},{967,0xcbb75bffe0925},{967,0xd5d0e27b8711f},{967,0xd939ee9e86b3f},{967,0xdf6e9ca7f8db5},{967,0xe0b8dedbf1ba8},{967,0xe6aee2a53afc0},{967,0xedd7b6712f3cc},{967,0xf50c5c63e5441},{967,0xff020d4511a5d},
{968,0x68e4e484463},{968,0x2d9955e9e8f1},{968,0xe935752cabb9},{968,0x1295f34ed9511},{968,0x19525011dc550},{968,0x2cb804b61b898},{968,0x2efc1410c0318},{968,0x331fc5d64b9be},{968,0x371ada372ff18},{968,0x5220346c0963b},{968,0x53a9985dbde6b},{968,0x59b83b3f9115c},{968,0x5a2b8f45a18f4},{968,0x65dbd074d0351},{968,0x65dde8e688ba6},{968,0x703856844bdbe},{968,0x70ef54646d496},{968,0x74336ae530318},{968,0x79dbd4e43e782},{968,0x85f1d6812399e},{968,0x86b871c906a20},{968,0x8c03034565b4b},{968,0x94bd3d6ca27c5},{968,0x94ed4ba9a7d5a},{968,0x95ad1185480bd},{968,0x98ac28f3c8e49},{968,0x9f51b76f79555},{968,0xa32fa423ee2d7},{968,0xa34b63e13d3a7},{968,0xa9f0ed73413e4},{968,0xb0b236c2944f1},{968,0xb3b8a8527c2e4},{968,0xb7738011e75fe},{968,0xbe20cdd91379f},{968,0xbe34c9613a70b},{968,0xc087afd4a57c6},{968,0xc4f612b08d818},{968,0xcb52ece88d2e9},{968,0xcbb75bffe0925},{968,0xcd2b297d889bc},{968,0xd664586671bd9},{968,0xd939ee9e86b3f},{968,0xe0b8dedbf1ba8},{968,0xe6aee2a53afc0},{968,0xedd7b6712f3cc},{968,0xf50c5c63e5441},{968,0xff020d4511a5d},
{969,0x7159cbe889db},{969,0xe935752cabb9},{969,0x24212fefd2896},{969,0x2efc1410c0318},{969,0x331fc5d64b9be},{969,0x420fad790af15},{969,0x43381ffad64fa},{969,0x5220346c0963b},{969,0x53a9985dbde6b},{969,0x59b83b3f9115c},{969,0x5a2b8f45a18f4},{969,0x607d319bd9048},{969,0x63198e070f96a},{969,0x65dde8e688ba6},{969,0x703856844bdbe},{969,0x70ef54646d496},{969,0x73e6a2f8a8b7c},{969,0x74336ae530318},{969,0x79dbd4e43e782},{969,0x86b871c906a20},{969,0x94ed4ba9a7d5a},{969,0x95ad1185480bd},{969,0x98ac28f3c8e49},{969,0x9d388d0dc1682},{969,0x9f0d3ef0faf29},{969,0xad51921aeac6b},{969,0xb0b236c2944f1},{969,0xb412db6a3dd78},{969,0xb7738011e75fe},{969,0xbad424b990e85},{969,0xbe20cdd91379f},{969,0xbe34c9613a70b},{969,0xc1956e08e3f92},{969,0xc88e9209140ad},{969,0xccb51a5849c07},{969,0xcf9679d8aa66e},{969,0xd939ee9e86b3f},{969,0xd9f9b47a26ea2},{969,0xe0b8dedbf1ba8},{969,0xf50c5c63e5441},{969,0xf65ab502f95cc},{969,0xfb005d2b26080},{969,0xff020d4511a5d},{969,0xff1ee24695c43},
{970,0x10f606ba17ee},{970,0xe935752cabb9},{970,0x19cfef312de86},{970,0x4fe0e2d928c12},{970,0x53a9985dbde6b},{970,0x59b83b3f9115c},{970,0x64f848e1ee78d},{970,0x65dde8e688ba6},{970,0x703856844bdbe},{970,0x70ef54646d496},{970,0x7b786426a93ef},{970,0x84c9da3ef861d},{970,0x86b871c906a20},{970,0x95ad1185480bd},{970,0x98ac28f3c8e49},{970,0xa69048cb97b5e},{970,0xb0b236c2944f1},{970,0xb412db6a3dd78},{970,0xb7738011e75fe},{970,0xbad424b990e85},{970,0xbd3d38b5dd726},{970,0xbe20cdd91379f},{970,0xc856b7583709f},{970,0xcc0403a06b778},{970,0xd939ee9e86b3f},{970,0xe0b8dedbf1ba8},{970,0xe43a1ec3cf705},{970,0xea1d25e4d65e0},{970,0xf50c5c63e5441},{970,0xf65ab502f95cc},
{971,0xaf2e13919491},{971,0xe935752cabb9},{971,0x19cfef312de86},{971,0x32cadb89975bd},{971,0x37f8125878ec9},{971,0x3d26906683767},{971,0x4fe0e2d928c12},{971,0x519aaf221d575},{971,0x53a9985dbde6b},{971,0x59e05f1e2674d},{971,0x63036bb2590dc},{971,0x64f848e1ee78d},{971,0x65dde8e688ba6},{971,0x668eff9e67035},{971,0x6709585f38530},{971,0x703856844bdbe},{971,0x70ef54646d496},{971,0x7b786426a93ef},{971,0x93c88419eee7b},{971,0x96bac79d14a72},{971,0xa69048cb97b5e},{971,0xa8789ab01ecb3},{971,0xb7738011e75fe},{971,0xb8c22f001c496},{971,0xc1a3aeda65317},{971,0xc856b7583709f},{971,0xcc0403a06b778},{971,0xcd2b297d889bc},{971,0xe0b8dedbf1ba8},{971,0xe1776f0e69080},{971,0xfc7fe8e266746},
{972,0x5f1ca38bad90},{972,0x19cfef312de86},{972,0x203af9ee75615},{972,0x2f4e3ccb6b97e},{972,0x32cadb89975bd},{972,0x37f8125878ec9},{972,0x3cec3698b1c86},{972,0x425ca5ef2a0af},{972,0x45f26de34f8ad},{972,0x4dcf6ddf01727},{972,0x53a9985dbde6b},{972,0x5a61de98492b3},{972,0x5fa41c6fb829f},{972,0x63036bb2590dc},{972,0x668eff9e67035},{972,0x6709585f38530},{972,0x703856844bdbe},{972,0x7da3af1fcb783},{972,0x83798f10b0418},{972,0x83d3d2d12e929},{972,0x9385c44dd7884},{972,0x96bac79d14a72},{972,0x9aca2ca3bdebe},{972,0xa63065ddc79ac},{972,0xa8789ab01ecb3},{972,0xb7738011e75fe},{972,0xb8c22f001c496},{972,0xbcea2209d4cf2},{972,0xcc0403a06b778},{972,0xd2eee6cf1a50e},{972,0xe1776f0e69080},{972,0xe5e615aad34b4},
{973,0x5f1ca38bad90},{973,0xa4290c5c2ca5},{973,0xbe7437bd14a1},{973,0x108bc92266a6b},{973,0x1734e46cda9e2},{973,0x1999e0370dd10},{973,0x203af9ee75615},{973,0x2155ecb8ec45c},{973,0x36c495f607417},{973,0x4c333f33223d2},{973,0x4dcf6ddf01727},{973,0x53a9985dbde6b},{973,0x5d651fc327775},{973,0x5eb2a525511c7},{973,0x6cdd78fe9f394},{973,0x703856844bdbe},{973,0x72cef1ebbca44},{973,0x7a2fdb554c942},{973,0x83798f10b0418},{973,0x8d1a2b56e2745},{973,0xa35385c3014db},{973,0xa63065ddc79ac},{973,0xb05876e5b0120},{973,0xb7738011e75fe},{973,0xb8c22f001c496},{973,0xbcea2209d4cf2},{973,0xcc0403a06b778},{973,0xce30d83d37451},{973,0xd07e714241d80},{973,0xd158276017079},{973,0xdfad3a1b6bf7d},{973,0xe19e9a508e449},
{974,0x721582e39451},{974,0xbe7437bd14a1},{974,0x108bc92266a6b},{974,0x1b324968b342d},{974,0x1f0762c7ffdc6},{974,0x200012e29102c},{974,0x2ea4533a61a63},{974,0x2f2d9b80b40c9},{974,0x325237af05fac},{974,0x53a9985dbde6b},{974,0x5d651fc327775},{974,0x5eb2a525511c7},{974,0x6cdd78fe9f394},{974,0x6d8467717977c},{974,0x703856844bdbe},{974,0x72cef1ebbca44},{974,0x771091ad58348},{974,0x83798f10b0418},{974,0x8b13129b9c3e3},{974,0x98d1adb399fa0},{974,0xa05b63e346d9f},{974,0xa1ef1d99c3cd2},{974,0xb7738011e75fe},{974,0xb8c22f001c496},{974,0xc138dfb1c5072},{974,0xc53e639fe474f},{974,0xd158276017079},{974,0xe239dfdedf1ef},{974,0xe32e4221971ff},{974,0xe3d3ed883281a},
{975,0x1a103abb2e7c},{975,0x721582e39451},{975,0xbe7437bd14a1},{975,0x1b324968b342d},{975,0x1e4a643a64628},{975,0x200012e29102c},{975,0x203af9ee75615},{975,0x2ea4533a61a63},{975,0x338ae3a301afa},{975,0x3af3c4c915dd5},{975,0x47e3ce1871d79},{975,0x53a9985dbde6b},{975,0x5d651fc327775},{975,0x5eb2a525511c7},{975,0x703856844bdbe},{975,0x72cef1ebbca44},{975,0x771091ad58348},{975,0x8b13129b9c3e3},{975,0xa05b63e346d9f},{975,0xb05876e5b0120},{975,0xb7738011e75fe},{975,0xb8c22f001c496},{975,0xbbc4469eef513},{975,0xc138dfb1c5072},{975,0xc53e639fe474f},{975,0xd158276017079},{975,0xdf8326fb2a905},{975,0xe239dfdedf1ef},{975,0xe3d3ed883281a},
{976,0xbe7437bd14a1},{976,0xcc8b95b8d752},{976,0x1e4a643a64628},{976,0x203af9ee75615},{976,0x2ea4533a61a63},{976,0x2fc86decc7986},{976,0x3e7e84afdabf8},{976,0x47e3ce1871d79},{976,0x5087a58a3d93b},{976,0x5d651fc327775},{976,0x5eb2a525511c7},{976,0x6adef22625e13},{976,0x703856844bdbe},{976,0x72cef1ebbca44},{976,0x771091ad58348},{976,0x891c3658e8591},{976,0x93298878be6cf},{976,0x9f1ae6103dd66},{976,0x9f697ac6140de},{976,0xb05876e5b0120},{976,0xb7738011e75fe},{976,0xb8c22f001c496},{976,0xc138dfb1c5072},{976,0xd158276017079},{976,0xfc2c8789dc0b2},{976,0xfec33d6d90c3d},
{977,0x32d0c980bae5},{977,0x4bd49060f20d},{977,0xbe7437bd14a1},{977,0x18343db9fa002},{977,0x1a2bf2432a1c8},{977,0x1e4a643a64628},{977,0x2ae07b944e7be},{977,0x3e7e84afdabf8},{977,0x47e3ce1871d79},{977,0x534df384b8e65},{977,0x5eb2a525511c7},{977,0x6b9bf68cb8288},{977,0x703856844bdbe},{977,0x778ac2ceb4350},{977,0x7ee6c59ac7797},{977,0x86e9962b68cc0},{977,0x8a812958b55bd},{977,0x9129391c06a09},{977,0x9f697ac6140de},{977,0xa4f7c3dada8d5},{977,0xb7738011e75fe},{977,0xb8c22f001c496},{977,0xbe7741b63fd0c},{977,0xc42951ae14f0b},{977,0xe66385c266144},{977,0xee54e94752eba},
{978,0x1a103abb2e7c},{978,0xbe7437bd14a1},{978,0xe374a4f8e0b4},{978,0x101f649f50d9c},{978,0x1a2bf2432a1c8},{978,0x1e4a643a64628},{978,0x21d524212944b},{978,0x2f9a9b8045183},{978,0x3240293e95c3b},{978,0x348e593a5f9d6},{978,0x3c2716f18f26c},{978,0x3e7e84afdabf8},{978,0x420944969fa1b},{978,0x58ad6f5d0a854},{978,0x5eb2a525511c7},{978,0x623d650c15fea},{978,0x703856844bdbe},{978,0x73f3248dee699},{978,0x778ac2ceb4350},{978,0x827185818c5ba},{978,0x86e9962b68cc0},{978,0x9722a3f41f733},{978,0x972eec76eaee0},{978,0x9ad32fd5f782b},{978,0x9e54163010dda},{978,0xb8c22f001c496},{978,0xbd89a69251c24},{978,0xbe7741b63fd0c},{978,0xc25c268497681},{978,0xd10aacb056817},{978,0xdc05612d33187},{978,0xddbdc707c81f4},{978,0xe1fcc74e311eb},{978,0xee54e94752eba},{978,0xf7f0960ad4b27},
{979,0xbe7437bd14a1},{979,0x101f649f50d9c},{979,0x2f9a9b8045183},{979,0x3240293e95c3b},{979,0x3b40815cd0627},{979,0x3c2716f18f26c},{979,0x3e7e84afdabf8},{979,0x4ed7b6c005901},{979,0x501527e38be2f},{979,0x5310daf40ae61},{979,0x58ad6f5d0a854},{979,0x6188568e7bf96},{979,0x73f3248dee699},{979,0x8e1e25dbd16f6},{979,0x8ff131b82e08c},{979,0x9552ef775510e},{979,0x9722a3f41f733},{979,0x972eec76eaee0},{979,0xa2a993df10b3a},{979,0xac9d95b405e9b},{979,0xb3e86ce3e51cf},{979,0xc07e928406d2e},{979,0xd10aacb056817},{979,0xddbdc707c81f4},{979,0xe1fcc74e311eb},{979,0xe30de6e1ef728},{979,0xee54e94752eba},{979,0xfc051ea9a922b},
{980,0xa1d0b3eb8483},{980,0xbe7437bd14a1},{980,0x16aeb419df679},{980,0x19078a913357d},{980,0x2d81c47b6e587},{980,0x2f9a9b8045183},{980,0x3240293e95c3b},{980,0x39719b7a872e2},{980,0x3e7e84afdabf8},{980,0x4db5e4f0e4b57},{980,0x4ed7b6c005901},{980,0x58ad6f5d0a854},{980,0x6188568e7bf96},{980,0x64b166995a9b7},{980,0x664e5545d6177},{980,0x6dea05665b126},{980,0x6e1c189a2580f},{980,0x73f3248dee699},{980,0x77ee2de9fab9a},{980,0x7996a5c0a0262},{980,0x8970f531ae47c},{980,0x8e1e25dbd16f6},{980,0x8ff131b82e08c},{980,0xac9d95b405e9b},{980,0xae52465147cc5},{980,0xc07e928406d2e},{980,0xce8666c6be295},{980,0xd8e0c20b3893b},{980,0xe1fcc74e311eb},{980,0xe30de6e1ef728},{980,0xeb1f12cde6527},{980,0xee54e94752eba},
{981,0x41537862bead},{981,0xd4da405f7fb8},{981,0x157a604ed019f},{981,0x15c2e5d202965},{981,0x19078a913357d},{981,0x25a3d9e7e48dc},{981,0x31f46bcf7b452},{981,0x3240293e95c3b},{981,0x39719b7a872e2},{981,0x3b901892fd0bf},{981,0x420944969fa1b},{981,0x4682cf2020f84},{981,0x4b78c7ebf82f9},{981,0x4ed7b6c005901},{981,0x51c51ce3718e1},{981,0x58ad6f5d0a854},{981,0x5c426c97eb99e},{981,0x6188568e7bf96},{981,0x64b166995a9b7},{981,0x684dcea3829f7},{981,0x6dea05665b126},{981,0x73f3248dee699},{981,0x7996a5c0a0262},{981,0x8a10a1b4047b1},{981,0x8e1e25dbd16f6},{981,0x8ff131b82e08c},{981,0x960d44885f7db},{981,0xac9d95b405e9b},{981,0xae52465147cc5},{981,0xc19263a2707c5},{981,0xc25c268497681},{981,0xcbde5440f61e1},{981,0xe30de6e1ef728},{981,0xeb1f12cde6527},{981,0xee54e94752eba},{981,0xfcf8bed020398},
{982,0xc6b3b3a8221e},{982,0xd4da405f7fb8},{982,0x1059dcf354e3d},{982,0x157a604ed019f},{982,0x19078a913357d},{982,0x1f1abef486ebf},{982,0x25a3d9e7e48dc},{982,0x27ab744e4bce9},{982,0x2858bf0bf97e5},{982,0x2a969c64dd138},{982,0x31f46bcf7b452},{982,0x3240293e95c3b},{982,0x44db052ff87ff},{982,0x4ed7b6c005901},{982,0x51c51ce3718e1},{982,0x578a678cc96ac},{982,0x58631edd82606},{982,0x6188568e7bf96},{982,0x64b166995a9b7},{982,0x684dcea3829f7},{982,0x73f3248dee699},{982,0x88350d313b063},{982,0x8a10a1b4047b1},{982,0x8e1e25dbd16f6},{982,0x8ff131b82e08c},{982,0x93f47608f3f94},{982,0x960d44885f7db},{982,0xac9d95b405e9b},{982,0xae52465147cc5},{982,0xb178b1df9e876},{982,0xb582c8a30d1d3},{982,0xd1718edd4f6e4},{982,0xd2236349da3cd},{982,0xd8978e8c1cc78},{982,0xe2cc7ffc46b6d},{982,0xf1a5af52c5cb3},{982,0xfcf8bed020398},
{983,0xd4da405f7fb8},{983,0x1059dcf354e3d},{983,0x157a604ed019f},{983,0x19078a913357d},{983,0x25a3d9e7e48dc},{983,0x27ab744e4bce9},{983,0x2858bf0bf97e5},{983,0x2a969c64dd138},{983,0x32290b876ad50},{983,0x44db052ff87ff},{983,0x4c4050e59c12f},{983,0x4ed7b6c005901},{983,0x5c6714def374c},{983,0x5e7bb953ad66c},{983,0x6188568e7bf96},{983,0x64b166995a9b7},{983,0x6afedd4fc9cd7},{983,0x6deadf4bbb049},{983,0x6e0cd275fa00e},{983,0x75846d62c49ce},{983,0x8a10a1b4047b1},{983,0x8e1e25dbd16f6},{983,0x8ff131b82e08c},{983,0xa3bef34ad0a92},{983,0xac9d95b405e9b},{983,0xae52465147cc5},{983,0xaf008b5ad1ec3},{983,0xafc7da5c906ed},{983,0xb178b1df9e876},{983,0xc887b68658760},{983,0xd2236349da3cd},{983,0xd8978e8c1cc78},{983,0xe6f3a33f5d4ef},{983,0xf1a5af52c5cb3},{983,0xfabf72145e6ca},{983,0xfaefba13a5f27},{983,0xfcf8bed020398},
{984,0x1059dcf354e3d},{984,0x157a604ed019f},{984,0x18b85fc581642},{984,0x19799812dea11},{984,0x25a3d9e7e48dc},{984,0x2858bf0bf97e5},{984,0x32290b876ad50},{984,0x37f91e5271988},{984,0x4b10c42390338},{984,0x4d8c3fba3355e},{984,0x50a10d0775fa6},{984,0x5c6714def374c},{984,0x64b166995a9b7},{984,0x6b8661f8a04b2},{984,0x6e0cd275fa00e},{984,0x787f282bfd3bd},{984,0x7bfdc07fdfbfd},{984,0x8a10a1b4047b1},{984,0x8ca891d088cce},{984,0x8ff131b82e08c},{984,0x90756ab1ed6b3},{984,0xa286e7f198b4f},{984,0xa636641c4df19},{984,0xaa6448f8441cd},{984,0xac9d95b405e9b},{984,0xae52465147cc5},{984,0xaf008b5ad1ec3},{984,0xbcea0ec21e250},{984,0xc887b68658760},{984,0xc8b016999b9f7},{984,0xcbbfc7f89f1df},{984,0xcffbfad206cbc},{984,0xe6f3a33f5d4ef},{984,0xf1a5af52c5cb3},{984,0xf8921657e1581},{984,0xfabf72145e6ca},{984,0xfaefba13a5f27},{984,0xfcf8bed020398},
{985,0x1059dcf354e3d},{985,0x157a604ed019f},{985,0x25a3d9e7e48dc},{985,0x2858bf0bf97e5},{985,0x2f8abab135ddf},{985,0x37f91e5271988},{985,0x50a10d0775fa6},{985,0x5c6714def374c},{985,0x5d5f12f5cc805},{985,0x5fd7fe1796495},{985,0x6b8661f8a04b2},{985,0x6e0cd275fa00e},{985,0x7bfdc07fdfbfd},{985,0x7f8278cce8eea},{985,0x83073119f21d7},{985,0x8ca891d088cce},{985,0x90756ab1ed6b3},{985,0xa636641c4df19},{985,0xa7633b445ed5b},{985,0xa8c3b9a635509},{985,0xaf008b5ad1ec3},{985,0xb89d06c05836f},{985,0xbcea0ec21e250},{985,0xc8392a0834581},{985,0xc8b016999b9f7},{985,0xcffbfad206cbc},{985,0xe0d0d512664b8},{985,0xe6f3a33f5d4ef},{985,0xf1a5af52c5cb3},{985,0xf1da3f2557392},{985,0xf8921657e1581},{985,0xf8f1938b30f79},{985,0xf9fd0bbfa1366},{985,0xfabf72145e6ca},{985,0xfc960c59526c7},{985,0xffeebfc8b81b5},
{986,0x13d44c992a57},{986,0xb1083f3d22f0},{986,0x1059dcf354e3d},{986,0x12121f09f2253},{986,0x22e6f94a51a4e},{986,0x25a3d9e7e48dc},{986,0x2858bf0bf97e5},{986,0x2c2597ed5e1ca},{986,0x37f91e5271988},{986,0x38804e8eab4e5},{986,0x44d3f26ef397e},{986,0x47f25b4941e5b},{986,0x50a10d0775fa6},{986,0x5767bb9f516c1},{986,0x5c6714def374c},{986,0x5fd7fe1796495},{986,0x66875c438e224},{986,0x6b8661f8a04b2},{986,0x6e05e4d3295f9},{986,0x707ae2e628daa},{986,0x7f8278cce8eea},{986,0x83073119f21d7},{986,0x8ca891d088cce},{986,0x90756ab1ed6b3},{986,0x995c483368029},{986,0xa5a550cbe702c},{986,0xaf008b5ad1ec3},{986,0xaff388cda89d0},{986,0xb89d06c05836f},{986,0xbcea0ec21e250},{986,0xc483c084e761a},{986,0xe0d0d512664b8},{986,0xe77e2493c0858},{986,0xed2b8bb3b37d2},{986,0xf057a8bf26339},{986,0xf1a5af52c5cb3},{986,0xf9fd0bbfa1366},{986,0xfd6f3cee2f06e},{986,0xffeebfc8b81b5},
{987,0x13d44c992a57},{987,0x1059dcf354e3d},{987,0x12121f09f2253},{987,0x25a3d9e7e48dc},{987,0x2858bf0bf97e5},{987,0x37f91e5271988},{987,0x4490adcb10a45},{987,0x44d3f26ef397e},{987,0x5c6714def374c},{987,0x66875c438e224},{987,0x707ae2e628daa},{987,0x716f9798c4336},{987,0x7304ea883b887},{987,0x7487d357be20d},{987,0x79717a0e2c385},{987,0x7f8278cce8eea},{987,0x83073119f21d7},{987,0x8a46544e8bb81},{987,0x8ca891d088cce},{987,0x8fd072d3c2e21},{987,0x90756ab1ed6b3},{987,0x96754850c779c},{987,0x98b8f10cee22f},{987,0xa4c950495378f},{987,0xaff388cda89d0},{987,0xbaef7f0e2b28b},{987,0xbcea0ec21e250},{987,0xd0e6e3f97feb1},{987,0xd50acd3ae8d11},{987,0xd60dfffa60b83},{987,0xe0d0d512664b8},{987,0xf11ecb540f791},{987,0xf9fd0bbfa1366},{987,0xffeebfc8b81b5},
{988,0xc17dcc21ddd4},{988,0x1059dcf354e3d},{988,0x1789ac1ac8304},{988,0x2858bf0bf97e5},{988,0x314d381f2c31e},{988,0x4490adcb10a45},{988,0x5c6714def374c},{988,0x5fd7fe1796495},{988,0x689c9fcdccb8a},{988,0x70a060766a677},{988,0x7487d357be20d},{988,0x7f8278cce8eea},{988,0x809832942376e},{988,0x83073119f21d7},{988,0x8ca891d088cce},{988,0x8f002da1d14ef},{988,0x8fd072d3c2e21},{988,0x98b8f10cee22f},{988,0xa4c950495378f},{988,0xb0d9af85b8cf0},{988,0xb7cdfd9d7bdba},{988,0xbcc4e30faa373},{988,0xce8da78882149},{988,0xd50acd3ae8d11},{988,0xe0d0d512664b8},{988,0xf9fd0bbfa1366},{988,0xffeebfc8b81b5},
{989,0xe488f0b27c7},{989,0x96f7e4dabd2c},{989,0x1059dcf354e3d},{989,0x11949a8c6ba00},{989,0x1789ac1ac8304},{989,0x201271a34fd8d},{989,0x2858bf0bf97e5},{989,0x2c82852b7fef3},{989,0x314d381f2c31e},{989,0x360ed149cf4ef},{989,0x410eb17585efb},{989,0x498bae15c5b0a},{989,0x5a89080732fde},{989,0x5c6714def374c},{989,0x5fd7fe1796495},{989,0x689c9fcdccb8a},{989,0x739c17398a271},{989,0x7b73334a3dc97},{989,0x7f033ec496acd},{989,0x809832942376e},{989,0x81b64506a6849},{989,0x83073119f21d7},{989,0x8ca891d088cce},{989,0x8f002da1d14ef},{989,0x900098b603fa1},{989,0x98b8f10cee22f},{989,0xa4b6ba7019821},{989,0xa4c950495378f},{989,0xba02a4d10f90c},{989,0xbb9ce3036cca4},{989,0xc53d89c3bbbdd},{989,0xd50acd3ae8d11},{989,0xdc27aa7f421f2},{989,0xddc8b025687b6},{989,0xe0d0d512664b8},{989,0xe3c8fd606ea4d},{989,0xf9fd0bbfa1366},{989,0xffeebfc8b81b5},
{990,0x96f7e4dabd2c},{990,0xe7577da598a7},{990,0x11949a8c6ba00},{990,0x1789ac1ac8304},{990,0x1f89c38908579},{990,0x201271a34fd8d},{990,0x2858bf0bf97e5},{990,0x2c82852b7fef3},{990,0x2d994ce5e566c},{990,0x360ed149cf4ef},{990,0x410eb17585efb},{990,0x4de9bf1a9b762},{990,0x5a89080732fde},{990,0x5c6714def374c},{990,0x620af147bc069},{990,0x739c17398a271},{990,0x88c35bed34b35},{990,0x8b34dcd80182c},{990,0x8ca891d088cce},{990,0x900098b603fa1},{990,0x98b8f10cee22f},{990,0xa0c3a237f5294},{990,0xa85b9582cee32},{990,0xb28716ce19039},{990,0xba02a4d10f90c},{990,0xc7f7ac3f5e0ab},{990,0xc92c39f82eb76},{990,0xd50acd3ae8d11},{990,0xd87ed74459a4f},{990,0xddc8b025687b6},{990,0xf2eff4d91307a},{990,0xf8defdb1f700a},{990,0xffeebfc8b81b5},
{991,0x96f7e4dabd2c},{991,0xf9451ba34cd6},{991,0x11949a8c6ba00},{991,0x1461c6b2b5432},{991,0x17102d2632cc1},{991,0x1789ac1ac8304},{991,0x201271a34fd8d},{991,0x2c82852b7fef3},{991,0x2d994ce5e566c},{991,0x3090918c6ae44},{991,0x410eb17585efb},{991,0x4310acb5500c3},{991,0x4449185a4c829},{991,0x450030e26c6dc},{991,0x50b3a2e0aff14},{991,0x5809852ca9e97},{991,0x5c6714def374c},{991,0x629dbb1c37091},{991,0x73cdf8db7a7bc},{991,0x853cd079ed9bf},{991,0x8b34dcd80182c},{991,0x900098b603fa1},{991,0x9745cb23daa7e},{991,0x98b8f10cee22f},{991,0xa0c3a237f5294},{991,0xa5006d695fef0},{991,0xaff8bdcd74ddd},{991,0xb28716ce19039},{991,0xb7cdfd9d7bdba},{991,0xc2c3c7c13fe6c},{991,0xc7f7ac3f5e0ab},{991,0xd87ed74459a4f},{991,0xe0be3f392c549},{991,0xe8d06cca1d9ec},{991,0xf676804c5a1f0},{991,0xf8defdb1f700a},{991,0xffeebfc8b81b5},
{992,0x96f7e4dabd2c},{992,0xe880db393816},{992,0xf9451ba34cd6},{992,0x11949a8c6ba00},{992,0x12e0be826d694},{992,0x1b10378e0f47a},{992,0x201271a34fd8d},{992,0x2c82852b7fef3},{992,0x394cbee428ea4},{992,0x429b844d95088},{992,0x4449185a4c829},{992,0x450030e26c6dc},{992,0x47902023db7c2},{992,0x505aa4b8c33d5},{992,0x50b3a2e0aff14},{992,0x568d5bdfd1b30},{992,0x5c6714def374c},{992,0x681a86dd36f84},{992,0x73cdf8db7a7bc},{992,0x74050ef156f1c},{992,0x80d43de9cc603},{992,0x853cd079ed9bf},{992,0x8e63f7cf5313c},{992,0x900098b603fa1},{992,0x98b8f10cee22f},{992,0xa5006d695fef0},{992,0xabfc227ab1026},{992,0xc2c3c7c13fe6c},{992,0xc7f7ac3f5e0ab},{992,0xd87ed74459a4f},{992,0xdae4863a0a92d},{992,0xddd162b99b73b},{992,0xe0be3f392c549},{992,0xe3f336040b130},{992,0xe8d06cca1d9ec},{992,0xea424bda7d7f4},{992,0xef696965cbf04},{992,0xf27674f7d5745},{992,0xf8defdb1f700a},{992,0xffeebfc8b81b5},
{993,0x96f7e4dabd2c},{993,0x1174ea3324624},{993,0x11949a8c6ba00},{993,0x201271a34fd8d},{993,0x2be06dfb5f8e6},{993,0x2c82852b7fef3},{993,0x374d49808e9ae},{993,0x394cbee428ea4},{993,0x3a0952a7adb5a},{993,0x429b844d95088},{993,0x4449185a4c829},{993,0x462c416a537cc},{993,0x47902023db7c2},{993,0x4ad9e9e18e2f8},{993,0x505aa4b8c33d5},{993,0x50b3a2e0aff14},{993,0x568d5bdfd1b30},{993,0x5c6714def374c},{993,0x6240cdde15368},{993,0x73cdf8db7a7bc},{993,0x74d4db7626ec4},{993,0x853cd079ed9bf},{993,0x8e63f7cf5313c},{993,0x98b8f10cee22f},{993,0xa5006d695fef0},{993,0xa87e42fab485b},{993,0xabfc227ab1026},{993,0xae4f32d2cc0d4},{993,0xc7f7ac3f5e0ab},{993,0xd04a953d6dad4},{993,0xd87ed74459a4f},{993,0xddd162b99b73b},{993,0xe3f336040b130},{993,0xe8d06cca1d9ec},{993,0xef696965cbf04},{993,0xf839c605fdaab},{993,0xfc8f531d45e77},
{994,0x96f7e4dabd2c},{994,0xbc1f2592c5e7},{994,0x11690fbfaf954},{994,0x1174ea3324624},{994,0x12e0be826d694},{994,0x1c0c21e880218},{994,0x201271a34fd8d},{994,0x209f2e6f59482},{994,0x2be06dfb5f8e6},{994,0x3285a3c428a84},{994,0x374d49808e9ae},{994,0x394cbee428ea4},{994,0x429b844d95088},{994,0x4449185a4c829},{994,0x4dc6c6611f106},{994,0x505aa4b8c33d5},{994,0x50b3a2e0aff14},{994,0x53a07f6040d22},{994,0x5516eda009429},{994,0x568d5bdfd1b30},{994,0x56a8c2c2ee981},{994,0x597a385f6293e},{994,0x5c6714def374c},{994,0x6a40d8d08d23f},{994,0x7315cdfce0815},{994,0x73cdf8db7a7bc},{994,0x7c6c73d9bbe18},{994,0x853cd079ed9bf},{994,0x8e63f7cf5313c},{994,0x910e95d723448},{994,0x9a2f5f4cb6936},{994,0x9c511dc3a41df},{994,0xa1fc0ddcf19fa},{994,0xa5006d695fef0},{994,0xabfc227ab1026},{994,0xbebb4b3ff5a35},{994,0xc58c6d8a67ba8},{994,0xc61f2cdbb78f7},{994,0xc7f7ac3f5e0ab},{994,0xd632e1f745624},{994,0xd87ed74459a4f},{994,0xd9b742e9561b5},{994,0xddd162b99b73b},{994,0xe2437fae51f91},{994,0xe3f336040b130},{994,0xef696965cbf04},{994,0xfc8f531d45e77},
{995,0xbc1f2592c5e7},{995,0x10b9b313402a0},{995,0x12e0be826d694},{995,0x2be06dfb5f8e6},{995,0x3285a3c428a84},{995,0x394cbee428ea4},{995,0x429b844d95088},{995,0x4449185a4c829},{995,0x47ed0d61fd4ea},{995,0x4d4a1a3157dc7},{995,0x505aa4b8c33d5},{995,0x522a11207861b},{995,0x53a07f6040d22},{995,0x5516eda009429},{995,0x568d5bdfd1b30},{995,0x5803ca1f9a237},{995,0x5b34be9487c22},{995,0x5dc83a1a72e7e},{995,0x607814d9476b2},{995,0x652daa5da6176},{995,0x6a40d8d08d23f},{995,0x6e465a038df35},{995,0x73cdf8db7a7bc},{995,0x853cd079ed9bf},{995,0x8c6733226d356},{995,0x8e63f7cf5313c},{995,0x9974282cd25b2},{995,0xa1fc0ddcf19fa},{995,0xa5006d695fef0},{995,0xaaa78acfe325d},{995,0xabfc227ab1026},{995,0xb5eaee9fc3e8e},{995,0xc7f7ac3f5e0ab},{995,0xd632e1f745624},{995,0xddd162b99b73b},{995,0xef696965cbf04},
{996,0x8486a8c74689},{996,0x1eba8443e5973},{996,0x2aac70665485e},{996,0x2be06dfb5f8e6},{996,0x3fb12dc023fd3},{996,0x47ed0d61fd4ea},{996,0x4d4a1a3157dc7},{996,0x4f3d34a0e780d},{996,0x53a07f6040d22},{996,0x545bb680250a6},{996,0x5516eda009429},{996,0x55d224bfed7ad},{996,0x568d5bdfd1b30},{996,0x5b34be9487c22},{996,0x5dc83a1a72e7e},{996,0x5ddd831ebbe53},{996,0x652daa5da6176},{996,0x67815bb8011ef},{996,0x6e465a038df35},{996,0x6effc834ac7e5},{996,0x73cdf8db7a7bc},{996,0x79f505f35670c},{996,0x801a95fef3d89},{996,0x8c6733226d356},{996,0x8da4ebb095bf5},{996,0x8e63f7cf5313c},{996,0x986f2862a17bc},{996,0x9974282cd25b2},{996,0x9fc0b9bedf15a},{996,0xa1fc0ddcf19fa},{996,0xabfc227ab1026},{996,0xbba2c57336e77},{996,0xbcef8150a071a},{996,0xc7f7ac3f5e0ab},{996,0xd632e1f745624},{996,0xddd162b99b73b},{996,0xef696965cbf04},
{997,0x2befa7f388ee},{997,0x61bac2bc18af},{997,0xc85778b40523},{997,0x1db5ace328f21},{997,0x1eba8443e5973},{997,0x222e9d46648c4},{997,0x2aac70665485e},{997,0x4d4a1a3157dc7},{997,0x4f3d34a0e780d},{997,0x5516eda009429},{997,0x55d224bfed7ad},{997,0x568d5bdfd1b30},{997,0x5b34be9487c22},{997,0x5ddd831ebbe53},{997,0x5fad3676b7ddd},{997,0x67815bb8011ef},{997,0x73591841a1d0f},{997,0x73cdf8db7a7bc},{997,0x79f505f35670c},{997,0x801a95fef3d89},{997,0x8da4ebb095bf5},{997,0x8e63f7cf5313c},{997,0x985ebd160d76b},{997,0x98b3d045e6923},{997,0xa1fc0ddcf19fa},{997,0xa235a56ea93f1},{997,0xa55b8cd21daea},{997,0xb24b6ce34c3b0},{997,0xbf891c92c0890},{997,0xd632e1f745624},{997,0xdd16c1de822a5},{997,0xddd162b99b73b},{997,0xdf517f66a1fc6},{997,0xe07640d3ae395},{997,0xef696965cbf04},{997,0xf237594c664ed},{997,0xfa1a570b3e898},{997,0xff44c8e01bc7c},
{998,0x1b2b29a4692b},{998,0xc85778b40523},{998,0x1db5ace328f21},{998,0x1eba8443e5973},{998,0x2aac70665485e},{998,0x35e522b954b74},{998,0x410812face9cd},{998,0x46c29d8331024},{998,0x4d4a1a3157dc7},{998,0x4f3d34a0e780d},{998,0x52e548405c99f},{998,0x5516eda009429},{998,0x568d5bdfd1b30},{998,0x5b34be9487c22},{998,0x5fad3676b7ddd},{998,0x602ff4171c2ee},{998,0x6381dae63505f},{998,0x67567f55b22e1},{998,0x73cdf8db7a7bc},{998,0x804118493909a},{998,0x8da4ebb095bf5},{998,0x8e63f7cf5313c},{998,0x8ea8ab5699b87},{998,0x98b3d045e6923},{998,0xa1fc0ddcf19fa},{998,0xa235a56ea93f1},{998,0xaae9125ff6bd6},{998,0xad7f29abcaf48},{998,0xbf891c92c0890},{998,0xc43f276d48cea},{998,0xd632e1f745624},{998,0xdd16c1de822a5},{998,0xe07640d3ae395},{998,0xe8269c8141f5e},{998,0xef696965cbf04},{998,0xf237594c664ed},{998,0xf6d4396c6578d},{998,0xfc57ec608ae6e},
{999,0x1b2b29a4692b},{999,0xc85778b40523},{999,0x2ca5d05ea7ab2},{999,0x35e522b954b74},{999,0x3d65e8c76722c},{999,0x46c29d8331024},{999,0x4d971170ed055},{999,0x4f3d34a0e780d},{999,0x568d5bdfd1b30},{999,0x5b34be9487c22},{999,0x6381dae63505f},{999,0x67567f55b22e1},{999,0x6bf0984b232b7},{999,0x6cc878086e2f3},{999,0x6d127d05394fd},{999,0x73cdf8db7a7bc},{999,0x8e63f7cf5313c},{999,0x98b3d045e6923},{999,0xa972a4202e4cf},{999,0xad7f29abcaf48},{999,0xbf891c92c0890},{999,0xd55e31ffa69d8},{999,0xd632e1f745624},{999,0xd87247702c0cf},{999,0xdd16c1de822a5},{999,0xdf2cbf3c43ac1},{999,0xe8269c8141f5e},{999,0xedb79de2b6828},{999,0xef696965cbf04},{999,0xf237594c664ed},{999,0xf33e0dd549186},{999,0xff19e23a836fc},
{1000,0x1d9d85f385af6},{1000,0x2ad6f9fe4113a},{1000,0x2d0e447e16abc},{1000,0x34a1531d6431a},{1000,0x37f8471959353},{1000,0x3d65e8c76722c},{1000,0x4d971170ed055},{1000,0x4f3d34a0e780d},{1000,0x6381dae63505f},{1000,0x67567f55b22e1},{1000,0x6bf0984b232b7},{1000,0x6cc878086e2f3},{1000,0x6d127d05394fd},{1000,0x73cdf8db7a7bc},{1000,0x7e7782ad13d5e},{1000,0xa496156d908ca},{1000,0xaa6acb41dfc52},{1000,0xafa4eb28cfcf5},{1000,0xb0c2cb5f187f2},{1000,0xb3f3580b79509},{1000,0xbb454a284a84d},{1000,0xbf891c92c0890},{1000,0xc91194dc2d40b},{1000,0xc91afd0ae85f0},{1000,0xd632e1f745624},{1000,0xd87247702c0cf},{1000,0xdc3ee22137269},{1000,0xe8269c8141f5e},{1000,0xef696965cbf04},{1000,0xf153bb9d8a845},
{1001,0x1c98ea8a8a46c},{1001,0x2efe69d45aeb6},{1001,0x31adc406dda48},{1001,0x34a1531d6431a},{1001,0x421f5f40d8376},{1001,0x4305dc49646ae},{1001,0x4d971170ed055},{1001,0x542f492840657},{1001,0x6381dae63505f},{1001,0x67567f55b22e1},{1001,0x6d127d05394fd},{1001,0x73cdf8db7a7bc},{1001,0x8b92832ace70a},{1001,0x8c32072485843},{1001,0x8e5bb417048f9},{1001,0x9f004f9fea2f7},{1001,0xa2c2623ab2ae6},{1001,0xaa6acb41dfc52},{1001,0xad7f29abcaf48},{1001,0xafa4eb28cfcf5},{1001,0xb75d4a6e184d8},{1001,0xbf891c92c0890},{1001,0xc91194dc2d40b},{1001,0xc91afd0ae85f0},{1001,0xd632e1f745624},{1001,0xdc3ee22137269},{1001,0xe011e98596e29},{1001,0xe8269c8141f5e},{1001,0xef696965cbf04},{1001,0xf153bb9d8a845},
{1002,0x86f8e78ec347},{1002,0x12a817b31dbc6},{1002,0x1e833cc248dad},{1002,0x2efe69d45aeb6},{1002,0x4305dc49646ae},{1002,0x542f492840657},{1002,0x6381dae63505f},{1002,0x6d127d05394fd},{1002,0x6e0c47a45eb4d},{1002,0x7235c776177ca},{1002,0x77cf44765195f},{1002,0x88c10e8649cd8},{1002,0x8b92832ace70a},{1002,0x9f004f9fea2f7},{1002,0xaa6acb41dfc52},{1002,0xad7f29abcaf48},{1002,0xb0e2b29109e97},{1002,0xbcfa23b69b951},{1002,0xdc3ee22137269},{1002,0xddd0ab28b8300},{1002,0xe011e98596e29},{1002,0xe32f0ee144531},{1002,0xef696965cbf04},{1002,0xf153bb9d8a845},{1002,0xf8fd047c84d49},
{1003,0x86f8e78ec347},{1003,0xf259cb734e17},{1003,0x244d41b6a3efe},{1003,0x28f85b6bc28e0},{1003,0x4f1d4d6ef6168},{1003,0x5d48767f94ae0},{1003,0x5eb130d1d6ff9},{1003,0x6381dae63505f},{1003,0x6d127d05394fd},{1003,0x8b92832ace70a},{1003,0x94c988f217e51},{1003,0x9f004f9fea2f7},{1003,0xa52594e2caedb},{1003,0xa69626d2629d0},{1003,0xaa6acb41dfc52},{1003,0xb0e2b29109e97},{1003,0xc04986b1b56f3},{1003,0xdc3ee22137269},{1003,0xeaf81125c6990},{1003,0xf8fd047c84d49},{1003,0xfe8fc1ef432d4},
{1004,0x86f8e78ec347},{1004,0xc6f7a0b5ed8d},{1004,0xf259cb734e17},{1004,0x19db7358bd307},{1004,0x244d41b6a3efe},{1004,0x268a0be6cd020},{1004,0x2d95af821899d},{1004,0x36f2fa65f27bf},{1004,0x42ecde0bfd847},{1004,0x4981285e98e79},{1004,0x4e9c8bb5820cc},{1004,0x4f8b588e368f0},{1004,0x5eb130d1d6ff9},{1004,0x746d7cd5318f5},{1004,0x8b92832ace70a},{1004,0x92a737110e453},{1004,0x94c988f217e51},{1004,0x96ae01db775f8},{1004,0x96d855bce0fd2},{1004,0x9f004f9fea2f7},{1004,0xa52594e2caedb},{1004,0xa69626d2629d0},{1004,0xaa6acb41dfc52},{1004,0xb9dc8fd608334},{1004,0xc0b23b82010a2},{1004,0xfe8fc1ef432d4},
{1005,0x86f8e78ec347},{1005,0x19db7358bd307},{1005,0x268a0be6cd020},{1005,0x36f2fa65f27bf},{1005,0x42ecde0bfd847},{1005,0x46237029f7ccb},{1005,0x4981285e98e79},{1005,0x4e9c8bb5820cc},{1005,0x4f8b588e368f0},{1005,0x5eb130d1d6ff9},{1005,0x7440bbff418b8},{1005,0x7ddbeac19d3b2},{1005,0x9010bb66778ff},{1005,0x94c988f217e51},{1005,0x96ae01db775f8},{1005,0xa69626d2629d0},{1005,0xb9dc8fd608334},{1005,0xc0b23b82010a2},{1005,0xdaf6862eadbd6},{1005,0xe3dadb5855d77},{1005,0xe3ec6d8a7b013},{1005,0xe7ba996041f39},{1005,0xe9e50b87f37ee},{1005,0xfe8fc1ef432d4},
{1006,0x86f8e78ec347},{1006,0x20ab8a25d136f},{1006,0x268a0be6cd020},{1006,0x3a4ba87ddc13f},{1006,0x4216b286031e7},{1006,0x473d78d30e3cb},{1006,0x4981285e98e79},{1006,0x4e9c8bb5820cc},{1006,0x4f8b588e368f0},{1006,0x5eb130d1d6ff9},{1006,0x739e23b467061},{1006,0x7440bbff418b8},{1006,0x7a995943f254e},{1006,0x94c988f217e51},{1006,0x96ae01db775f8},{1006,0xa14ecf2e29006},{1006,0xa2458c0b51e4c},{1006,0xa69626d2629d0},{1006,0xb43526527a205},{1006,0xc0b23b82010a2},{1006,0xd292f460d2e52},{1006,0xdaf6862eadbd6},{1006,0xed411c0243942},
{1007,0xe1cf9350aa3c},{1007,0x268a0be6cd020},{1007,0x4216b286031e7},{1007,0x45152b6f85e09},{1007,0x4981285e98e79},{1007,0x4e9c8bb5820cc},{1007,0x4f8b588e368f0},{1007,0x585e22c624637},{1007,0x5b49d2b1e91bb},{1007,0x9097c00b2a78f},{1007,0xa2458c0b51e4c},{1007,0xa69626d2629d0},{1007,0xa79ba116f7a47},{1007,0xa876ac2ec793a},{1007,0xb43526527a205},{1007,0xb58e8361f067a},{1007,0xbc948d999ac11},{1007,0xc0b23b82010a2},{1007,0xd975f41932fdf},{1007,0xdaf6862eadbd6},{1007,0xe45f92411d9d1},{1007,0xfd4d9f43958cd},{1007,0xff75eca71de8f},
{1008,0xeba3bd35056a},{1008,0x24b8a29a887ab},{1008,0x3c84d675facd3},{1008,0x3f4dc47dfef5d},{1008,0x45152b6f85e09},{1008,0x45337fa3122d1},{1008,0x462952214a0ea},{1008,0x4981285e98e79},{1008,0x4e9c8bb5820cc},{1008,0x4f8b588e368f0},{1008,0xa36e2eb1c432c},{1008,0xa69626d2629d0},{1008,0xb43526527a205},{1008,0xb58e8361f067a},{1008,0xbc948d999ac11},{1008,0xc0b23b82010a2},{1008,0xdaf6862eadbd6},{1008,0xf75104d551d68},{1008,0xfd4d9f43958cd},
{1009,0x11d89a8b5c142},{1009,0x1e78910b559e9},{1009,0x2599ed7c6fbd2},{1009,0x3a92a30553261},{1009,0x3ab70961c09ec},{1009,0x3c84d675facd3},{1009,0x45152b6f85e09},{1009,0x4f8b588e368f0},{1009,0x6ba56a8834168},{1009,0x74376f164df9b},{1009,0x7667905d04e8c},{1009,0x797cc39ffd60e},{1009,0xa13165598db6b},{1009,0xa36e2eb1c432c},{1009,0xa69626d2629d0},{1009,0xb8d24405128e7},{1009,0xbc948d999ac11},{1009,0xc37b298a0532c},{1009,0xc92ddbdb5d894},{1009,0xd167cfb219fde},{1009,0xdaf6862eadbd6},{1009,0xf2841c51ebc03},
{1010,0x10a137f38c543},{1010,0x11d89a8b5c142},{1010,0x12ec04ba3dc2c},{1010,0x17070e7a81f58},{1010,0x2599ed7c6fbd2},{1010,0x2e98304de6021},{1010,0x3a92a30553261},{1010,0x3fb069f6b0fa4},{1010,0x44a9ca8ba155c},{1010,0x45152b6f85e09},{1010,0x4f8b588e368f0},{1010,0x64840e1719f7f},{1010,0x6ba56a8834168},{1010,0x7667905d04e8c},{1010,0x797cc39ffd60e},{1010,0xa69626d2629d0},{1010,0xa8af0b45d9531},{1010,0xb8d24405128e7},{1010,0xbc948d999ac11},{1010,0xc92ddbdb5d894},{1010,0xd167cfb219fde},{1010,0xdaf6862eadbd6},
{1011,0x11d89a8b5c142},{1011,0x17070e7a81f58},{1011,0x3a92a30553261},{1011,0x3fb069f6b0fa4},{1011,0x44201574307e7},{1011,0x44a9ca8ba155c},{1011,0x4f8b588e368f0},{1011,0x7323486489cba},{1011,0x7667905d04e8c},{1011,0xa36e2eb1c432c},{1011,0xa69626d2629d0},{1011,0xa8af0b45d9531},{1011,0xc18dee2e8b1c9},{1011,0xd0346059dceb2},{1011,0xdaf6862eadbd6},{1011,0xe7967caea747d},{1011,0xe8f8f1857e0a7},
{1012,0x3a92a30553261},{1012,0x3fb069f6b0fa4},{1012,0x44a9ca8ba155c},{1012,0x4f8b588e368f0},{1012,0x54434e3369b9d},{1012,0x7323486489cba},{1012,0x7667905d04e8c},{1012,0x8cdcb79b76345},{1012,0xa36e2eb1c432c},{1012,0xa8af0b45d9531},{1012,0xbf113de412eed},{1012,0xc18dee2e8b1c9},{1012,0xdaf6862eadbd6},{1012,0xe7967caea747d},
{1013,0x148924009048b},{1013,0x3a92a30553261},{1013,0x3fb069f6b0fa4},{1013,0x44a9ca8ba155c},{1013,0x46d09ee964b30},{1013,0x54434e3369b9d},{1013,0x7667905d04e8c},{1013,0x791819d2391d5},{1013,0x91148fd9fd36f},{1013,0x9dece5710880d},{1013,0xa8af0b45d9531},{1013,0xbda5119ce075f},{1013,0xc04f96094f05b},{1013,0xc18dee2e8b1c9},{1013,0xe7967caea747d},
{1014,0x624dd2f1a9fb},{1014,0x383a591748710},{1014,0x3a92a30553261},{1014,0x3e7211d174e36},{1014,0x791819d2391d5},{1014,0x7c1bda5119ce0},{1014,0x89374bc6a7ef9},{1014,0x9dece5710880d},{1014,0xa8af0b45d9531},{1014,0xbc558644523f6},{1014,0xc18dee2e8b1c9},{1014,0xe7967caea747d},
{1015,0x2f6e82949a565},{1015,0x383a591748710},{1015,0x3a92a30553261},{1015,0x791819d2391d5},{1015,0x8b827fa1a0cf1},{1015,0xb494c7a2c1608},{1015,0xc7c5a6e8b78ef},{1015,0xe6dc428b95cad},{1015,0xe7967caea747d},
{1016,0x1923bd746a352},{1016,0x26e978d4fdf3b},{1016,0x2f6e82949a565},{1016,0x791819d2391d5},{1016,0x824d4cb9ecf63},{1016,0x85f06f6944673},{1016,0x8b827fa1a0cf1},{1016,0xe6dc428b95cad},
{1017,0x5d78811b1d92b},{1017,0x604189374bc6a},{1017,0x7db2b3461309c},{1017,0x824d4cb9ecf63},{1017,0x8b827fa1a0cf1},{1017,0xed288ce703afb},
{1018,0x1eb851eb851eb},{1018,0x2ca57a786c226},{1018,0x604189374bc6a},{1018,0x747d805e5f30e},{1018,0x8b827fa1a0cf1},{1018,0x9999999999999},{1018,0xa1cac083126e9},{1018,0xb98c7e28240b7},{1018,0xeb851eb851eb8},
{1019,0x1eb851eb851eb},{1019,0x467381d7dbf48},{1019,0x604189374bc6a},{1019,0x9999999999999},{1019,0xb98c7e28240b7},{1019,0xdf3b645a1cac0},
{1020,0x1eb851eb851eb},{1020,0x5c28f5c28f5c2},{1020,0x604189374bc6a},{1020,0x9fbe76c8b4395},
{1021,0x1eb851eb851eb},{1021,0x3333333333333},{1021,0x9999999999999},{1021,0xe147ae147ae14},
{1022,0x6666666666666},{1022,0x9999999999999},
{1076,0x1c37937e07fff},{1076,0x1c37937e08000},
{1079,0x6345785d89fff},{1079,0x6345785d8a000},
{1080,0x6345785d89fff},{1080,0x6345785d8a000},
{1087,0x158e460913cff},{1087,0x158e460913d00},{1087,0xa055690d9db7f},{1087,0xa055690d9db80},
{1097,0xf0cf064dd591},{1097,0xf0cf064dd592},{1097,0x969368974c05a},{1097,0x969368974c05b},
{1101,0xfc3842bd1f071},
{1103,0xbcb13a657b263},
{1104,0x3da329b633647},{1104,0xa784379d99db4},{1104,0xbcb13a657b263},
{1105,0x8b2a2c280290},{1105,0x7293b0a9e69fd},{1105,0xdc74be914d16a},{1105,0xe1bfff4345696},
{1106,0x8b2a2c280290},{1106,0xb58431b7c526},{1106,0x9a4815e0ad0c6},{1106,0xe1bfff4345696},
{1107,0x8b2a2c280290},{1107,0xb58431b7c526},{1107,0x2f1437ccc880e},{1107,0x306707f946959},{1107,0x768c212f60dde},{1107,0x8d0bf423c03d8},{1107,0x9a4815e0ad0c6},
{1108,0x8b2a2c280290},{1108,0x2f1437ccc880e},{1108,0x40f232256e982},{1108,0x4adf4b7320334},{1108,0x64ae26d6bac6a},{1108,0x768c212f60dde},{1108,0x9a4815e0ad0c6},
{1109,0x8b2a2c280290},{1109,0x40f232256e982},{1109,0x49e12f51c1a3c},{1109,0x5bbf29aa67bb0},{1109,0x64ae26d6bac6a},{1109,0x9a4815e0ad0c6},{1109,0xf39df99beb80a},
{1110,0x14474047cf5e0},{1110,0x40f232256e982},{1110,0x49e12f51c1a3c},{1110,0x4e58ade7eb299},{1110,0x5747ab143e353},{1110,0x5bbf29aa67bb0},{1110,0x6d9d24030dd24},{1110,0x9a4815e0ad0c6},{1110,0xc6f307be4c468},
{1111,0x2a9cb9369efb1},{1111,0x40f232256e982},{1111,0x4adf4b7320334},{1111,0x4e58ade7eb299},{1111,0x5747ab143e353},{1111,0x6d9d24030dd24},{1111,0x83f29cf1dd6f5},{1111,0xc6f307be4c468},{1111,0xd77e31ea74491},
{1112,0x40f232256e982},{1112,0x5747ab143e353},{1112,0x6d9d24030dd24},{1112,0xc6f307be4c468},{1112,0xfb1a631794a5a},
{1113,0x363156bbee301},{1113,0x5747ab143e353},{1113,0xa6f547cad4aa8},{1113,0xc6f307be4c468},{1113,0xf22b65eb419a0},{1113,0xfb1a631794a5a},
{1114,0x172c67a9232b4},{1114,0x28bd9ed7b4b1d},{1114,0x363156bbee301},{1114,0x5747ab143e353},{1114,0x7ce2ba2474acf},{1114,0x9d971e4fe8401},{1114,0xa6f547cad4aa8},{1114,0xc6f307be4c468},
{1115,0x172c67a9232b4},{1115,0x28bd9ed7b4b1d},{1115,0x363156bbee301},{1115,0x5747ab143e353},{1115,0x69e43a85eb381},{1115,0x6f0fb7b3b7b8e},{1115,0x7ce2ba2474acf},{1115,0x83395319887c0},{1115,0xc6f307be4c468},{1115,0xd107d57134a81},
{1116,0x363156bbee301},{1116,0x500ac8a0ecb41},{1116,0x5747ab143e353},{1116,0x9427c042b96ea},{1116,0x9b015fb901ffb},{1116,0xc6f307be4c468},{1116,0xd107d57134a81},{1116,0xf1b39f538707b},{1116,0xf2e4afc3968d5},
{1117,0x27e72f1f1281},{1117,0x1a6795e5c2fbc},{1117,0x431e0fae6d721},{1117,0x500ac8a0ecb41},{1117,0x5747ab143e353},{1117,0x83bdac6ae9bc1},{1117,0x9427c042b96ea},{1117,0xd107d57134a81},{1117,0xf1b39f538707b},{1117,0xf2e4afc3968d5},
{1118,0x1a6795e5c2fbc},{1118,0x427a478ceb7f9},{1118,0x431e0fae6d721},{1118,0x46593deb0d429},{1118,0x49946c27ad131},{1118,0x5747ab143e353},{1118,0x8d389f159ddcc},{1118,0x9427c042b96ea},{1118,0xd107d57134a81},{1118,0xd47f6607c2710},
{1119,0x11f88fb93dce9},{1119,0x1a6795e5c2fbc},{1119,0x431e0fae6d721},{1119,0x46593deb0d429},{1119,0x8d389f159ddcc},{1119,0x93a7c942eb903},{1119,0x9427c042b96ea},{1119,0x9c9ef6d751e7f},{1119,0xc8909edc9c2ec},{1119,0xd107d57134a81},{1119,0xd47f6607c2710},
{1120,0x11f88fb93dce9},{1120,0x1a6795e5c2fbc},{1120,0x431e0fae6d721},{1120,0x44bba6ccbd5a5},{1120,0x45f1d82379488},{1120,0x46593deb0d429},{1120,0x5345f6dd8c849},{1120,0x717c1a612f954},{1120,0x93a7c942eb903},{1120,0xb0dc028eb026e},{1120,0xd107d57134a81},{1120,0xd47f6607c2710},{1120,0xf3b37b52be817},{1120,0xf822c980d4bb2},
{1121,0x1ed6e413d9357},{1121,0x431e0fae6d721},{1121,0x458a725be54e7},{1121,0x45f1d82379488},{1121,0x46593deb0d429},{1121,0x4b320345fcfb5},{1121,0xc2adb44b394bf},{1121,0xd47f6607c2710},{1121,0xe4ad1785a42b2},{1121,0xec025b8be94ee},{1121,0xf822c980d4bb2},
{1122,0x63714f72a5fa},{1122,0x297b853d64ac7},{1122,0x3b4d36f9edd18},{1122,0x431e0fae6d721},{1122,0x45f1d82379488},{1122,0x4728097a3536b},{1122,0x9f0a50d22701d},{1122,0x9f694404feff2},{1122,0xd47f6607c2710},{1122,0xec025b8be94ee},{1122,0xf822c980d4bb2},
{1123,0x5d821c452625},{1123,0x63714f72a5fa},{1123,0x2c83a0ba9f878},{1123,0x431e0fae6d721},{1123,0x45230c9451546},{1123,0x45f1d82379488},{1123,0x4728097a3536b},{1123,0x50d468b2e6dbb},{1123,0x5ef09a73001ba},{1123,0x791cb84189d74},{1123,0x9f0a50d22701d},{1123,0x9f694404feff2},{1123,0xf822c980d4bb2},
{1124,0x2c83a0ba9f878},{1124,0x2eec2eb3869af},{1124,0x3fa9e69c5a1b7},{1124,0x431e0fae6d721},{1124,0x45230c9451546},{1124,0x45f1d82379488},{1124,0x4d37002be0dda},{1124,0x65f6725fcf435},{1124,0x791cb84189d74},{1124,0x93e5939a08ce9},{1124,0xb332e38555027},{1124,0xb8091321add4f},{1124,0xf8def8808b024},
{1125,0x125782ec15cbe},{1125,0x2eec2eb3869af},{1125,0x3fa9e69c5a1b7},{1125,0x431e0fae6d721},{1125,0x45f1d82379488},{1125,0x6168e126c7b4c},{1125,0x65f6725fcf435},{1125,0xb8091321add4f},{1125,0xe938508ae4e85},{1125,0xeba3685911519},{1125,0xf8def8808b024},
{1126,0x125782ec15cbe},{1126,0x2c24ad87c78a3},{1126,0x45f1d82379488},{1126,0x7d2d767fc51c9},{1126,0xad23ecd3a95b8},{1126,0xd1d63dbd5f934},{1126,0xe73353a501060},{1126,0xeba3685911519},{1126,0xf685f8e87ee4c},
{1127,0x284af6756cd2},{1127,0x90ea8dd15c79},{1127,0x15aaf54911611},{1127,0x28d13b2acbf50},{1127,0x3bf7810c8688f},{1127,0x45f1d82379488},{1127,0x6025c31719475},{1127,0x6ea99ccb6f31f},{1127,0x7aa73a606841b},{1127,0x7d2d767fc51c9},{1127,0x9e3be885fc16a},{1127,0xad23ecd3a95b8},{1127,0xf8def8808b024},
{1128,0x284af6756cd2},{1128,0x15aaf54911611},{1128,0x165f8c68ec63d},{1128,0x28d13b2acbf50},{1128,0x3b8b5b5056e16},{1128,0x3bf7810c8688f},{1128,0x45f1d82379488},{1128,0x4f1dc6ee411ce},{1128,0x6ea99ccb6f31f},{1128,0x7216e054baaf9},{1128,0x8d2f9787394fd},{1128,0x9a3529e870f1d},{1128,0xa055dd68f3e3c},{1128,0xaedd2456e6009},{1128,0xb37c234aae77b},{1128,0xc6a2692c690ba},{1128,0xc6f3ad2df2001},{1128,0xf8def8808b024},
{1129,0x1bfd6bc84e314},{1129,0x4f1dc6ee411ce},{1129,0x51a1e962c35cb},{1129,0x6ea99ccb6f31f},{1129,0x7216e054baaf9},{1129,0x9a3529e870f1d},{1129,0x9acea4fcb0990},{1129,0xa055dd68f3e3c},{1129,0xaedd2456e6009},{1129,0xb37c234aae77b},{1129,0xbd4a6c9488fad},{1129,0xc6f3ad2df2001},{1129,0xf318b55f33672},{1129,0xf5b72d5956f0a},
{1130,0x2781de1765d7f},{1130,0x30baa4ed2b746},{1130,0x35db9d527f985},{1130,0x4f1dc6ee411ce},{1130,0x6ea99ccb6f31f},{1130,0x75eb89a59a274},{1130,0x9a3529e870f1d},{1130,0xa055dd68f3e3c},{1130,0xaedd2456e6009},{1130,0xbd4a6c9488fad},{1130,0xf318b55f33672},{1130,0xf5b72d5956f0a},
{1131,0x4959cbbea0d5},{1131,0xa31a03822bc9},{1131,0x30baa4ed2b746},{1131,0x3b8b5b5056e16},{1131,0x4b15bd716a84f},{1131,0x4f1dc6ee411ce},{1131,0x5cdfad1e6cdb7},{1131,0x6ea99ccb6f31f},{1131,0x74abe04e97080},{1131,0x75eb89a59a274},{1131,0x8a6e32246c99c},{1131,0x9a3529e870f1d},{1131,0xb5d15b7f788bf},{1131,0xbe0eb55770d4d},{1131,0xd16d8d1680261},{1131,0xdf2620650b537},{1131,0xf7a9d79dad9b4},{1131,0xff6af0bf00100},
{1132,0x3edfebd612af},{1132,0xa31a03822bc9},{1132,0x30baa4ed2b746},{1132,0x56b68f6e86870},{1132,0x5cdfad1e6cdb7},{1132,0x62fcc6ba61bd9},{1132,0x6ea99ccb6f31f},{1132,0x8a6e32246c99c},{1132,0x9a3529e870f1d},{1132,0xab10c016c34b8},{1132,0xb5d15b7f788bf},{1132,0xbe0eb55770d4d},{1132,0xd16d8d1680261},{1132,0xf4fb1ef239c15},{1132,0xff6af0bf00100},
{1133,0x613a3146972},{1133,0xa31a03822bc9},{1133,0x151c1f7eb9f38},{1133,0x1d57e619dd508},{1133,0x30baa4ed2b746},{1133,0x5cdfad1e6cdb7},{1133,0x62fcc6ba61bd9},{1133,0x65c4a4f4ee06b},{1133,0x7f965f952e3ef},{1133,0x8a80dedbc575e},{1133,0xa80342b3f4bee},{1133,0xab10c016c34b8},{1133,0xb5d15b7f788bf},{1133,0xbe0eb55770d4d},{1133,0xc39f744afc590},{1133,0xcb36992bf52c7},{1133,0xea109faba28a6},{1133,0xed09bead87c03},
{1134,0x25c5ec649c28},{1134,0xa31a03822bc9},{1134,0x1cf9db448e76c},{1134,0x1d57e619dd508},{1134,0x27d2a59b51735},{1134,0x30baa4ed2b746},{1134,0x5cdfad1e6cdb7},{1134,0x61522909ad711},{1134,0x64345318504e0},{1134,0x7f965f952e3ef},{1134,0x8a6e32246c99c},{1134,0x8a80dedbc575e},{1134,0xa80342b3f4bee},{1134,0xab10c016c34b8},{1134,0xb5d15b7f788bf},{1134,0xbe0eb55770d4d},{1134,0xcb36992bf52c7},{1134,0xea109faba28a6},{1134,0xec6cfb7e5286b},{1134,0xed09bead87c03},
{1135,0x474f5afab6a5},{1135,0xa31a03822bc9},{1135,0xf2bc2790aa9b},{1135,0x198b81d9ba9b7},{1135,0x1d57e619dd508},{1135,0x2d000fb2b138a},{1135,0x40c61c9916cf4},{1135,0x5cdfad1e6cdb7},{1135,0x5f18eb140d264},{1135,0x61522909ad711},{1135,0x731c18b6afc79},{1135,0x7f965f952e3ef},{1135,0x8a6e32246c99c},{1135,0xa80342b3f4bee},{1135,0xab10c016c34b8},{1135,0xaf5e3ffd1cc93},{1135,0xb5d15b7f788bf},{1135,0xd53dd86ae1adc},{1135,0xde1ea791a6e7d},{1135,0xe761e7002eb07},{1135,0xed09bead87c03},{1135,0xfb560f372bb00},
{1136,0xf2bc2790aa9b},{1136,0x198b81d9ba9b7},{1136,0x2d000fb2b138a},{1136,0x2f0f01597a0fe},{1136,0x40c61c9916cf4},{1136,0x46a3418629ef5},{1136,0x5cdfad1e6cdb7},{1136,0x5f18eb140d264},{1136,0x67fde2ea8e518},{1136,0x6bcd1b9895b82},{1136,0x7e1ac0934934f},{1136,0xa0857a01bbb2f},{1136,0xa80342b3f4bee},{1136,0xab10c016c34b8},{1136,0xaf5e3ffd1cc93},{1136,0xb5d15b7f788bf},{1136,0xd53dd86ae1adc},{1136,0xde1ea791a6e7d},{1136,0xed09bead87c03},{1136,0xf919023fcb6fd},{1136,0xfb560f372bb00},
{1137,0xf2bc2790aa9b},{1137,0x198b81d9ba9b7},{1137,0x210e1798b5961},{1137,0x2f0f01597a0fe},{1137,0x37ea8ef9486f9},{1137,0x46a3418629ef5},{1137,0x527d37d8b38ea},{1137,0x5c4433b0ed8d1},{1137,0x5cdfad1e6cdb7},{1137,0x71c74f0225d02},{1137,0x73a4677b329c6},{1137,0x7e1ac0934934f},{1137,0x7e3a4e82d13da},{1137,0x9a2b61bf776a0},{1137,0xa0857a01bbb2f},{1137,0xd3049a754162f},{1137,0xd53dd86ae1adc},{1137,0xde1ea791a6e7d},{1137,0xdf7ac1c114048},{1137,0xed09bead87c03},{1137,0xf919023fcb6fd},
{1138,0xf2bc2790aa9b},{1138,0x1b56f9c090dfb},{1138,0x263373b9abb03},{1138,0x37ea8ef9486f9},{1138,0x46a3418629ef5},{1138,0x527d37d8b38ea},{1138,0x5c4433b0ed8d1},{1138,0x5d087dedbb273},{1138,0x71c74f0225d02},{1138,0x7e1ac0934934f},{1138,0x9d316da14a3a7},{1138,0xa0857a01bbb2f},{1138,0xb5923fa0687a9},{1138,0xbacc7bad6635f},{1138,0xbcc82edcfe76d},{1138,0xc3bf023a8461b},{1138,0xd3049a754162f},{1138,0xd53dd86ae1adc},{1138,0xde1ea791a6e7d},{1138,0xed09bead87c03},{1138,0xf2c713c096cfa},{1138,0xf919023fcb6fd},
{1139,0x815612bfcb62},{1139,0xf2bc2790aa9b},{1139,0x1b56f9c090dfb},{1139,0x263373b9abb03},{1139,0x2ae781ff9a4c8},{1139,0x46a3418629ef5},{1139,0x52f6b3174d542},{1139,0x625f010cb9922},{1139,0x68362bcae92fa},{1139,0x6ded49a30de60},{1139,0x71c74f0225d02},{1139,0x7e1ac0934934f},{1139,0x7ec6fbf7bb6d1},{1139,0x853121e057288},{1139,0x8fa63afcbb900},{1139,0xa0857a01bbb2f},{1139,0xbda80a9978912},{1139,0xc929557c234da},{1139,0xd53dd86ae1adc},{1139,0xde1ea791a6e7d},{1139,0xe4027615bc3eb},{1139,0xed09bead87c03},{1139,0xf919023fcb6fd},{1139,0xfe954489d53e8},
{1140,0x79ef227a7af8},{1140,0x815612bfcb62},{1140,0x17a397ff0d604},{1140,0x1b56f9c090dfb},{1140,0x2ae781ff9a4c8},{1140,0x3b49ffe3bae15},{1140,0x46a3418629ef5},{1140,0x625f010cb9922},{1140,0x68362bcae92fa},{1140,0x7111b96ab78f5},{1140,0x7ec6fbf7bb6d1},{1140,0x8dfcc0fd1bfe8},{1140,0x8fa63afcbb900},{1140,0xb5155dd5417f9},{1140,0xbda80a9978912},{1140,0xc929557c234da},{1140,0xe4027615bc3eb},{1140,0xed09bead87c03},{1140,0xfe954489d53e8},
{1141,0x79ef227a7af8},{1141,0x815612bfcb62},{1141,0x17a397ff0d604},{1141,0x1b56f9c090dfb},{1141,0x3539e23e9107d},{1141,0x381a34f73bb6f},{1141,0x3b49ffe3bae15},{1141,0x46a3418629ef5},{1141,0x4ba29692319fc},{1141,0x625f010cb9922},{1141,0x706676bd9856f},{1141,0x812f9cf7920e2},{1141,0x8dfcc0fd1bfe8},{1141,0x8fa63afcbb900},{1141,0x9bc389d8865f8},{1141,0xb5155dd5417f9},{1141,0xbda80a9978912},{1141,0xce3922c2af443},{1141,0xda516a32b398b},{1141,0xe4027615bc3eb},{1141,0xed09bead87c03},{1141,0xf0e3d22ae2cfb},{1141,0xf4bde5a83ddf3},
{1142,0x79ef227a7af8},{1142,0x17a397ff0d604},{1142,0x187e312ca7d27},{1142,0x1b56f9c090dfb},{1142,0x29a0c45ceca7a},{1142,0x3539e23e9107d},{1142,0x46a3418629ef5},{1142,0x4ba29692319fc},{1142,0x5890d1ef6a0da},{1142,0x5aaada1203732},{1142,0x625f010cb9922},{1142,0x706676bd9856f},{1142,0x80e19d51e0ff1},{1142,0x8fa63afcbb900},{1142,0x95caaa1e433b9},{1142,0x9bc389d8865f8},{1142,0x9e6ad8a79620f},{1142,0xab930b3c9fa61},{1142,0xb5155dd5417f9},{1142,0xbda80a9978912},{1142,0xd3a9df6745804},{1142,0xf0e3d22ae2cfb},{1142,0xf4bde5a83ddf3},
{1143,0x270c72df0e86},{1143,0x79ef227a7af8},{1143,0x17a397ff0d604},{1143,0x187e312ca7d27},{1143,0x1b56f9c090dfb},{1143,0x29a0c45ceca7a},{1143,0x3aa1ad778f23b},{1143,0x46a3418629ef5},{1143,0x4ba29692319fc},{1143,0x4c47db8435bd1},{1143,0x5890d1ef6a0da},{1143,0x5aaada1203732},{1143,0x625f010cb9922},{1143,0x6da468c77697e},{1143,0x8b1c6e44714f6},{1143,0x8fa63afcbb900},{1143,0x95caaa1e433b9},{1143,0x961eefda7a91c},{1143,0x9bc389d8865f8},{1143,0xab930b3c9fa61},{1143,0xb5155dd5417f9},{1143,0xd304824d1c698},{1143,0xdff60430bf667},{1143,0xe54f765f519da},{1143,0xf0e3d22ae2cfb},{1143,0xf4bde5a83ddf3},{1143,0xf4d2b02d3e1d3},
{1144,0x270c72df0e86},{1144,0x17a397ff0d604},{1144,0x189fdb424a2b9},{1144,0x1b56f9c090dfb},{1144,0x29a0c45ceca7a},{1144,0x29e418883159e},{1144,0x3aa1ad778f23b},{1144,0x46a3418629ef5},{1144,0x4ba29692319fc},{1144,0x4c47db8435bd1},{1144,0x5890d1ef6a0da},{1144,0x635585ec10560},{1144,0x644c0acb6719e},{1144,0x71d6a019edae8},{1144,0x812f9cf7920e2},{1144,0x8b1c6e44714f6},{1144,0x8fa63afcbb900},{1144,0x95caaa1e433b9},{1144,0x961eefda7a91c},{1144,0x9bc389d8865f8},{1144,0xab930b3c9fa61},{1144,0xdff60430bf667},{1144,0xe17b84357691b},{1144,0xf0e3d22ae2cfb},{1144,0xf4bde5a83ddf3},{1144,0xf4d2b02d3e1d3},{1144,0xf5685d7145c62},
{1145,0x270c72df0e86},{1145,0x13844cd2d14eb},{1145,0x29a0c45ceca7a},{1145,0x29e418883159e},{1145,0x2e305a05c573d},{1145,0x3aa1ad778f23b},{1145,0x50be2501aa7ca},{1145,0x5109a9589fcc6},{1145,0x5890d1ef6a0da},{1145,0x5cc529c27674f},{1145,0x62da437c64f41},{1145,0x644c0acb6719e},{1145,0x71d6a019edae8},{1145,0x7e79872f2f7ef},{1145,0x8df7fd3083aa9},{1145,0x8fa63afcbb900},{1145,0x95064935e7928},{1145,0xc2874c3700ab1},{1145,0xd3b7a1d154aba},{1145,0xd6edd8c3fc320},{1145,0xd7df221b90a44},{1145,0xe17b84357691b},{1145,0xe2c8512fc54d5},{1145,0xe4aac881e7fc5},{1145,0xe6a3bfc66b353},{1145,0xefed4d4b8c0bd},{1145,0xf0e3d22ae2cfb},{1145,0xf5685d7145c62},
{1146,0x116d5f8554cb},{1146,0x5c7a4f8c6cfc},{1146,0x125c71d474b14},{1146,0x29a0c45ceca7a},{1146,0x3aa1ad778f23b},{1146,0x4db10203b8b08},{1146,0x5890d1ef6a0da},{1146,0x5cc529c27674f},{1146,0x61e3be9d0e303},{1146,0x644c0acb6719e},{1146,0x691ca32818ed4},{1146,0x707ed26f96adb},{1146,0x7e79872f2f7ef},{1146,0x8fa63afcbb900},{1146,0x9343e727b4ad8},{1146,0x94b5c95af79e5},{1146,0x95064935e7928},{1146,0x97bf5559b31fd},{1146,0xba55e6c5db826},{1146,0xc2874c3700ab1},{1146,0xcb31d55f5cd88},{1146,0xd3b7a1d154aba},{1146,0xe6a3bfc66b353},{1146,0xefed4d4b8c0bd},{1146,0xf0e3d22ae2cfb},{1146,0xf2559979e4f58},{1146,0xf5685d7145c62},{1146,0xf98e7e04efb29},{1146,0xfbdc386609b13},
{1147,0x125c71d474b14},{1147,0x148c42a3a160b},{1147,0x1a5ca422d8ed9},{1147,0x26a7be1951d90},{1147,0x32964f2944b05},{1147,0x3aa1ad778f23b},{1147,0x5a857d2ad9f1e},{1147,0x5d1326405c5cd},{1147,0x691ca32818ed4},{1147,0x730a09d2e4ae7},{1147,0x7d980135064af},{1147,0x8fa63afcbb900},{1147,0x9343e727b4ad8},{1147,0x94b5c95af79e5},{1147,0x97bf5559b31fd},{1147,0xb45ef5839e1f1},{1147,0xba55e6c5db826},{1147,0xbd2adfca9c981},{1147,0xcb31d55f5cd88},{1147,0xd3b7a1d154aba},{1147,0xd4f92d888c4dc},{1147,0xe17b84357691b},{1147,0xed33a794a1d0a},{1147,0xed85011d33222},{1147,0xf3104e1f0b383},{1147,0xf5685d7145c62},{1147,0xfbdc386609b13},
{1148,0x148c42a3a160b},{1148,0x1adef745cf426},{1148,0x26a7be1951d90},{1148,0x3218ce64d54f6},{1148,0x32964f2944b05},{1148,0x3a4d84417944e},{1148,0x3aa1ad778f23b},{1148,0x3f9581089b2e2},{1148,0x5a857d2ad9f1e},{1148,0x691ca32818ed4},{1148,0x696863c382440},{1148,0x730a09d2e4ae7},{1148,0x74ba45ee1f880},{1148,0x869a485fda1bf},{1148,0x8c5c9edfe0dbe},{1148,0x8fa63afcbb900},{1148,0x97bf5559b31fd},{1148,0xa83a6b502b0a1},{1148,0xab50d222a607b},{1148,0xb21de07db8c01},{1148,0xbbbf0d455e75d},{1148,0xcb31d55f5cd88},{1148,0xcd9f0fb71909c},{1148,0xd3b7a1d154aba},{1148,0xe17b84357691b},{1148,0xed33a794a1d0a},{1148,0xf5685d7145c62},
{1149,0xed57a5e12b1f},{1149,0x13231c241e6d4},{1149,0x1adef745cf426},{1149,0x2b88e6969eb3f},{1149,0x306a0f13eb8ee},{1149,0x32964f2944b05},{1149,0x3aa1ad778f23b},{1149,0x3f9581089b2e2},{1149,0x5a857d2ad9f1e},{1149,0x60df84b0c86fb},{1149,0x691ca32818ed4},{1149,0x869a485fda1bf},{1149,0x8fa63afcbb900},{1149,0x92dba9451b653},{1149,0x97bf5559b31fd},{1149,0xa35942d2de2f2},{1149,0xa83a6b502b0a1},{1149,0xab4e05ac120a5},{1149,0xab50d222a607b},{1149,0xbbbf0d455e75d},{1149,0xbe6cf148aeb05},{1149,0xcd9f0fb71909c},{1149,0xd3b7a1d154aba},{1149,0xe17b84357691b},{1149,0xed33a794a1d0a},{1149,0xf429cb67eb075},
{1150,0xa71b8948faac},{1150,0x12242592ae54a},{1150,0x200a949d200a5},{1150,0x29ca64e246375},{1150,0x2b88e6969eb3f},{1150,0x32964f2944b05},{1150,0x3f9581089b2e2},{1150,0x4923112ffcc3e},{1150,0x5421f608badb2},{1150,0x5a857d2ad9f1e},{1150,0x687bbd7db3507},{1150,0x691ca32818ed4},{1150,0x72f7d991d0970},{1150,0x737aa2567167b},{1150,0x77e97e3d209a3},{1150,0x92d34ea427f44},{1150,0x97bf5559b31fd},{1150,0x97daf0d95f858},{1150,0xa35942d2de2f2},{1150,0xab4e05ac120a5},{1150,0xbe6cf148aeb05},{1150,0xd26fa813cadd2},{1150,0xd76b0392d82b1},{1150,0xdffa54987effa},{1150,0xe3a431c6537da},{1150,0xed33a794a1d0a},{1150,0xf429cb67eb075},
{1151,0x144eaa1b931b},{1151,0x24b815d4db06},{1151,0x25c9bd99df5f2},{1151,0x2b88e6969eb3f},{1151,0x300ba0edac520},{1151,0x311237a940d0b},{1151,0x32964f2944b05},{1151,0x383dd003fb8ef},{1151,0x48c323794e291},{1151,0x5ed257399f725},{1151,0x737aa2567167b},{1151,0x78287f49c4a1d},{1151,0x7d6ca5ef27210},{1151,0x87d469cb69dd0},{1151,0x8d990d859292a},{1151,0x92d34ea427f44},{1151,0x93600d4897dbd},{1151,0x97daf0d95f858},{1151,0xa35942d2de2f2},{1151,0xc363cbf21f289},{1151,0xd76b0392d82b1},{1151,0xe3a431c6537da},{1151,0xec8aa22a5f033},{1151,0xed33a794a1d0a},{1151,0xf429cb67eb075},
{1152,0x24b815d4db06},{1152,0xaeee3636ba3d},{1152,0x177c4c24a239c},{1152,0x2b88e6969eb3f},{1152,0x383dd003fb8ef},{1152,0x5ed257399f725},{1152,0x62fb2e38ee461},{1152,0x728dadeddda1c},{1152,0x78287f49c4a1d},{1152,0x7d6ca5ef27210},{1152,0x87d469cb69dd0},{1152,0x93600d4897dbd},{1152,0x97daf0d95f858},{1152,0x9dc6259df1e53},{1152,0xa35942d2de2f2},{1152,0xa6864ac4eae0d},{1152,0xc3c4ec5841719},{1152,0xf429cb67eb075},
{1153,0x665dc4b9fab2},{1153,0x177c4c24a239c},{1153,0x2b88e6969eb3f},{1153,0x383dd003fb8ef},{1153,0x59132e3ce01d8},{1153,0x5ed257399f725},{1153,0x7a09facdfa186},{1153,0x87d469cb69dd0},{1153,0x8af75273db438},{1153,0x9dc6259df1e53},{1153,0xa35942d2de2f2},{1153,0xaa1c16f2483ff},{1153,0xaeb37d43d3105},{1153,0xb4ebb4280e06a},{1153,0xd0e38a791f98b},{1153,0xd30e8bb7bdc96},{1153,0xd4446075c4933},{1153,0xdbf75be0163c7},{1153,0xe1405452bfe8e},{1153,0xe272430c89b34},{1153,0xe35cffb9ac084},{1153,0xee1279e32020a},{1153,0xf0476bc75f4cb},{1153,0xf39d0cc37b1fc},{1153,0xf429cb67eb075},
{1154,0x1a4b1752b330},{1154,0x665dc4b9fab2},{1154,0x10b6f5e248288},{1154,0x2b88e6969eb3f},{1154,0x370be14a31c49},{1154,0x383dd003fb8ef},{1154,0x3d058aeb22b87},{1154,0x5ed257399f725},{1154,0x6bcc413715d8c},{1154,0x712cf37b21e77},{1154,0x71c5ead806cca},{1154,0x763a5b8ca0ed8},{1154,0x78287f49c4a1d},{1154,0x7e363887df265},{1154,0x87d469cb69dd0},{1154,0x8af75273db438},{1154,0xa35942d2de2f2},{1154,0xa78ce1807f5f8},{1154,0xaeb37d43d3105},{1154,0xbaf371d744fed},{1154,0xc1bc075cc9d8f},{1154,0xc7c8a33ebf0bb},{1154,0xd0e38a791f98b},{1154,0xd30e8bb7bdc96},{1154,0xd4446075c4933},{1154,0xd6329f1c35ca4},{1154,0xe35cffb9ac084},{1154,0xf39d0cc37b1fc},
{1155,0x665dc4b9fab2},{1155,0xe3ed49f2f982},{1155,0x10b6f5e248288},{1155,0x1b5a3f0eba1aa},{1155,0x2b88e6969eb3f},{1155,0x3d058aeb22b87},{1155,0x4dd7242b11b60},{1155,0x54b561bf8ebb3},{1155,0x5b4832ce9c9cd},{1155,0x63f08f7c85e73},{1155,0x6bcc413715d8c},{1155,0x712cf37b21e77},{1155,0x71c5ead806cca},{1155,0x763a5b8ca0ed8},{1155,0x78287f49c4a1d},{1155,0x7f0762ac05654},{1155,0x87d469cb69dd0},{1155,0x8a4619ed6f443},{1155,0x976bf099a6489},{1155,0xa2ce1cd2cdb59},{1155,0xa35942d2de2f2},{1155,0xa78ce1807f5f8},{1155,0xa9831f95635ac},{1155,0xaeb37d43d3105},{1155,0xbc4a33456eef6},{1155,0xc1bc075cc9d8f},{1155,0xd4446075c4933},{1155,0xdae653e6bb72b},{1155,0xe739fdf3b0dcc},{1155,0xf820641aef39b},
{1156,0x665dc4b9fab2},{1156,0xe3ed49f2f982},{1156,0x154da32cc4e7e},{1156,0x1b5a3f0eba1aa},{1156,0x2166daf0af4d5},{1156,0x2b88e6969eb3f},{1156,0x2f470d06acef4},{1156,0x36eb12cfc620f},{1156,0x4dd7242b11b60},{1156,0x54b561bf8ebb3},{1156,0x56f95ee60f855},{1156,0x60a5f7552857b},{1156,0x617a6b98227e4},{1156,0x62f12a9d58515},{1156,0x7aa0df1c53296},{1156,0x8269d7358056b},{1156,0x87d469cb69dd0},{1156,0x895206602c7bc},{1156,0x8a4619ed6f443},{1156,0x8da48536b513b},{1156,0x976bf099a6489},{1156,0xa2ce1cd2cdb59},{1156,0xa78ce1807f5f8},{1156,0xa9831f95635ac},{1156,0xe07d4c0571bcb},{1156,0xedb52710d2146},{1156,0xf820641aef39b},{1156,0xf9766b0b20397},{1156,0xfa3a3371bfd1e},
{1157,0xbf99cba6628c},{1157,0xe3ed49f2f982},{1157,0x103766b819ea5},{1157,0x154da32cc4e7e},{1157,0x1b5a3f0eba1aa},{1157,0x2b88e6969eb3f},{1157,0x2f470d06acef4},{1157,0x36eb12cfc620f},{1157,0x3e8f1898df52a},{1157,0x467998e1c5251},{1157,0x4cb57d8bade58},{1157,0x54b561bf8ebb3},{1157,0x56f95ee60f855},{1157,0x5bd3462e73864},{1157,0x60a5f7552857b},{1157,0x617a6b98227e4},{1157,0x6c673b4f767cc},{1157,0x71d3d7fceeb1a},{1157,0x7aa0df1c53296},{1157,0x8933945f41e0b},{1157,0x895206602c7bc},{1157,0x8da48536b513b},{1157,0x99a6bc41c3361},{1157,0xa2fac2b421f53},{1157,0xa78ce1807f5f8},{1157,0xa9075e961727f},{1157,0xa9831f95635ac},{1157,0xc5b1ab32d5dbe},{1157,0xcec9bb224f008},{1157,0xd6329f1c35ca4},{1157,0xe07d4c0571bcb},{1157,0xf820641aef39b},{1157,0xf9766b0b20397},
{1158,0xbf99cba6628c},{1158,0x103512b413936},{1158,0x103766b819ea5},{1158,0x1b5a3f0eba1aa},{1158,0x1fff01747a8be},{1158,0x28b05b8854d8b},{1158,0x2b88e6969eb3f},{1158,0x36eb12cfc620f},{1158,0x467998e1c5251},{1158,0x4cb57d8bade58},{1158,0x56f95ee60f855},{1158,0x5bd3462e73864},{1158,0x5be0fa1a49797},{1158,0x60a5f7552857b},{1158,0x6230ced268a14},{1158,0x6a0f0f0c3d1c6},{1158,0x6c673b4f767cc},{1158,0x7aa0df1c53296},{1158,0x7cd420e42c475},{1158,0x99a6bc41c3361},{1158,0xa78ce1807f5f8},{1158,0xa9075e961727f},{1158,0xa9831f95635ac},{1158,0xc5b1ab32d5dbe},{1158,0xcec9bb224f008},{1158,0xd0f403a5c02a3},{1158,0xd8ccfadb47c3c},{1158,0xe481f74a07693},{1158,0xefddee59c5ae9},{1158,0xf23bb846f2b9b},{1158,0xf72545107d3c1},{1158,0xf820641aef39b},{1158,0xf9766b0b20397},
{1159,0x70588589ee6b},{1159,0xebc64246896f},{1159,0xfd1c54f7b253},{1159,0x103512b413936},{1159,0x1b5a3f0eba1aa},{1159,0x1fff01747a8be},{1159,0x2b88e6969eb3f},{1159,0x36eb12cfc620f},{1159,0x46331e61f8845},{1159,0x5617970e7e3bd},{1159,0x56f95ee60f855},{1159,0x5bd3462e73864},{1159,0x5be0fa1a49797},{1159,0x60a5f7552857b},{1159,0x6230ced268a14},{1159,0x6a0f0f0c3d1c6},{1159,0x6e4a06965306b},{1159,0x7cd420e42c475},{1159,0x8295c8c3454b4},{1159,0x92d4b2b2a772b},{1159,0x9493658b5c6d5},{1159,0x95ce93acae399},{1159,0x9dbdab180b774},{1159,0x9fd4c4b68c5ee},{1159,0xa9075e961727f},{1159,0xa9831f95635ac},{1159,0xb139fb612d0b0},{1159,0xb8cf752a726da},{1159,0xc5b1ab32d5dbe},{1159,0xc7e4ecfaaef9d},{1159,0xc96c5886f3d1e},{1159,0xcec9bb224f008},{1159,0xd0f403a5c02a3},{1159,0xd8ccfadb47c3c},{1159,0xeb3a113e17352},{1159,0xf820641aef39b},{1159,0xf9766b0b20397},
{1160,0x32a1a72ba0e9},{1160,0x8217425512c4},{1160,0xebc64246896f},{1160,0xfd1c54f7b253},{1160,0x103512b413936},{1160,0x1999803aea40a},{1160,0x24d1d9aa3f99d},{1160,0x3150f8e6c7ea5},{1160,0x36eb12cfc620f},{1160,0x3cc39db4e72a8},{1160,0x46331e61f8845},{1160,0x4ef803e8ffb2f},{1160,0x5617970e7e3bd},{1160,0x56f95ee60f855},{1160,0x5be0fa1a49797},{1160,0x62308e5bb4f51},{1160,0x6230ced268a14},{1160,0x65bf3c2d91472},{1160,0x744f601561748},{1160,0x9295ade212370},{1160,0x9493658b5c6d5},{1160,0x95ce93acae399},{1160,0x9822135d38bf6},{1160,0x9fd4c4b68c5ee},{1160,0xa9831f95635ac},{1160,0xaa00af1a9c599},{1160,0xad5e8d7b4832e},{1160,0xb375e73fc3dff},{1160,0xb8cf752a726da},{1160,0xc5b1ab32d5dbe},{1160,0xce13985ebc89b},{1160,0xcec9bb224f008},{1160,0xd0f403a5c02a3},{1160,0xd875de3876888},{1160,0xdca523705cc04},{1160,0xf9766b0b20397},{1160,0xfd07ff4f292dd},
{1161,0x13c637fc7a28},{1161,0x32a1a72ba0e9},{1161,0x6483cc0ef9ad},{1161,0x8217425512c4},{1161,0xebc64246896f},{1161,0x103512b413936},{1161,0x3529217bdce6c},{1161,0x36eb12cfc620f},{1161,0x4c4b71f1ad586},{1161,0x4ef803e8ffb2f},{1161,0x5617970e7e3bd},{1161,0x5be0fa1a49797},{1161,0x62308e5bb4f51},{1161,0x6230ced268a14},{1161,0x6f578c4e0a060},{1161,0x6f7f66eb3149f},{1161,0x7ae2eea7ffe20},{1161,0x82f0d49a72e98},{1161,0x9493658b5c6d5},{1161,0x95ce93acae399},{1161,0x9822135d38bf6},{1161,0x9fd4c4b68c5ee},{1161,0xa25c86ef6da09},{1161,0xa9831f95635ac},{1161,0xaa00af1a9c599},{1161,0xad5e8d7b4832e},{1161,0xaf4c446e3a9ef},{1161,0xb6338d9d8ae39},{1161,0xb8262fbdf7a1f},{1161,0xb8cf752a726da},{1161,0xbc40297f80164},{1161,0xcf13c4b5a6323},{1161,0xd0f403a5c02a3},{1161,0xd875de3876888},{1161,0xdca523705cc04},{1161,0xec3cfe91884fc},{1161,0xf203dce0d85af},
{1162,0x517d165ac7aa},{1162,0x6483cc0ef9ad},{1162,0x8217425512c4},{1162,0x103512b413936},{1162,0x1ea54ad097098},{1162,0x2d3bc97820fca},{1162,0x33277ee34c131},{1162,0x3529217bdce6c},{1162,0x36eb12cfc620f},{1162,0x448787d34a417},{1162,0x457074f204e6e},{1162,0x5617970e7e3bd},{1162,0x6230ced268a14},{1162,0x657bda9445903},{1162,0x82f0d49a72e98},{1162,0x941380bc3e39d},{1162,0x95ce93acae399},{1162,0x9822135d38bf6},{1162,0x9fd4c4b68c5ee},{1162,0xa25c86ef6da09},{1162,0xa9831f95635ac},{1162,0xaa00af1a9c599},{1162,0xb327b2541f771},{1162,0xb4e22cc6e8cd9},{1162,0xb8cf752a726da},{1162,0xcf13c4b5a6323},{1162,0xdca523705cc04},{1162,0xe33b3af4169e1},{1162,0xe35e900dcc04a},{1162,0xf0c4fb4c984b8},{1162,0xf76c67945675f},
{1163,0x517d165ac7aa},{1163,0x8217425512c4},{1163,0x103512b413936},{1163,0x1381a93a87848},{1163,0x169c4b9439c0b},{1163,0x1ea54ad097098},{1163,0x2d3bc97820fca},{1163,0x3529217bdce6c},{1163,0x4bacf82722c40},{1163,0x4d8426c0e7fef},{1163,0x540f5c10106f5},{1163,0x574d787d87eab},{1163,0x5a39ef3ea2a19},{1163,0x7fdf53e607ea2},{1163,0x807d070055ef7},{1163,0x834cde75e144d},{1163,0x953edb0d79248},{1163,0x95ce93acae399},{1163,0x9fd4c4b68c5ee},{1163,0xaa00af1a9c599},{1163,0xaa20710dd0b78},{1163,0xacce7af805b58},{1163,0xb327b2541f771},{1163,0xb8cf752a726da},{1163,0xd163381ab9d1a},{1163,0xd95df373a18d0},{1163,0xe947d6d60bd0c},{1163,0xf0c4fb4c984b8},
{1164,0x674e7f673909},{1164,0x8217425512c4},{1164,0x103512b413936},{1164,0x10dd7a301db67},{1164,0x13635f7af41ae},{1164,0x1381a93a87848},{1164,0x159d08453891e},{1164,0x1642f52931d53},{1164,0x1ea54ad097098},{1164,0x29e7362639f82},{1164,0x2d3bc97820fca},{1164,0x3529217bdce6c},{1164,0x4d8426c0e7fef},{1164,0x52b9f6e0c65bf},{1164,0x574d787d87eab},{1164,0x5ed39d194ac60},{1164,0x66288f327cf91},{1164,0x6f578c4e0a060},{1164,0x77bb8849a8cc5},{1164,0x78b4a57dae7e8},{1164,0x7fdf53e607ea2},{1164,0x807d070055ef7},{1164,0x811da1cc7922a},{1164,0x834cde75e144d},{1164,0x8a7fbb4f4978f},{1164,0x97d768826b41b},{1164,0x9fafb6f245065},{1164,0x9fd4c4b68c5ee},{1164,0xa278472a9f3a7},{1164,0xaa20710dd0b78},{1164,0xacce7af805b58},{1164,0xb327b2541f771},{1164,0xd95df373a18d0},{1164,0xe947d6d60bd0c},
{1165,0x8217425512c4},{1165,0x103512b413936},{1165,0x1381a93a87848},{1165,0x159d08453891e},{1165,0x173c167bf44f9},{1165,0x18b3e2bea5e62},{1165,0x19045525c5923},{1165,0x1ea54ad097098},{1165,0x2446407b6880d},{1165,0x27169ac3db5d2},{1165,0x29605b923c248},{1165,0x29e7362639f82},{1165,0x2d3bc97820fca},{1165,0x2f882bd10b6f7},{1165,0x406b0cd17fd56},{1165,0x416c9ac448c54},{1165,0x4712766d8c511},{1165,0x4d8426c0e7fef},{1165,0x5233223e67731},{1165,0x574d787d87eab},{1165,0x5fdebca984a4b},{1165,0x66288f327cf91},{1165,0x77fe36f5c39cb},{1165,0x78b4a57dae7e8},{1165,0x811da1cc7922a},{1165,0x834cde75e144d},{1165,0x853a9568d3b0e},{1165,0x8a7fbb4f4978f},{1165,0xa7d220eaad7c1},{1165,0xacce7af805b58},{1165,0xb008215a8ad23},{1165,0xb327b2541f771},{1165,0xcfc4edef530e0},{1165,0xd7f94f9e73af7},{1165,0xe114cf3f6b3d4},{1165,0xec8593474f222},
{1166,0x8217425512c4},{1166,0x1381a93a87848},{1166,0x18b3e2bea5e62},{1166,0x1ea54ad097098},{1166,0x1eaffd631cd8c},{1166,0x2175c5a5ffc53},{1166,0x22027c89b4e4c},{1166,0x2446407b6880d},{1166,0x2716bb50d13c8},{1166,0x29605b923c248},{1166,0x29e7362639f82},{1166,0x2a7721ff6824e},{1166,0x406b0cd17fd56},{1166,0x4d8426c0e7fef},{1166,0x574d787d87eab},{1166,0x5c8fd9279729f},{1166,0x5fdebca984a4b},{1166,0x66288f327cf91},{1166,0x77fe36f5c39cb},{1166,0x7e5d52fdb15ac},{1166,0x811da1cc7922a},{1166,0x853a9568d3b0e},{1166,0x8e612fbaace4f},{1166,0x9e5110745c822},{1166,0xacce7af805b58},{1166,0xb008215a8ad23},{1166,0xcfc4edef530e0},{1166,0xd869cc2c2304c},{1166,0xe07d7dfb061cd},{1166,0xe114cf3f6b3d4},{1166,0xec8593474f222},{1166,0xf099b6cb6b4f8},{1166,0xf46225721cca5},
{1167,0x806ecd817345},{1167,0x8217425512c4},{1167,0xe155eb16efeb},{1167,0xfb557f87e773},{1167,0x1381a93a87848},{1167,0x1633da505cd69},{1167,0x196ffb5ce94da},{1167,0x22027c89b4e4c},{1167,0x2446407b6880d},{1167,0x3258a6a6742b2},{1167,0x3717be054a16b},{1167,0x406b0cd17fd56},{1167,0x574d787d87eab},{1167,0x586213892965a},{1167,0x6351cf5af6a69},{1167,0x65c66cf63ebf6},{1167,0x67661e46165d3},{1167,0x6f74ef77fbc96},{1167,0x7e5d52fdb15ac},{1167,0x811da1cc7922a},{1167,0x829cbb02fa842},{1167,0x853a9568d3b0e},{1167,0x9e5110745c822},{1167,0xb008215a8ad23},{1167,0xb5717322803e7},{1167,0xcb2d6f618c878},{1167,0xcd230a7ff47c3},{1167,0xcfc4edef530e0},{1167,0xd81cd3b30de8f},{1167,0xd869cc2c2304c},{1167,0xe114cf3f6b3d4},{1167,0xec8593474f222},{1167,0xf099b6cb6b4f8},{1167,0xf2fcfa14de0d2},{1167,0xf41e1bf48b040},
{1168,0x806ecd817345},{1168,0xfb557f87e773},{1168,0x1633da505cd69},{1168,0x1efc659cf7d4b},{1168,0x235266cbdccd9},{1168,0x2446407b6880d},{1168,0x2ccefcc7cd4f9},{1168,0x3258a6a6742b2},{1168,0x3717be054a16b},{1168,0x406b0cd17fd56},{1168,0x532a6bbd30767},{1168,0x586213892965a},{1168,0x6351cf5af6a69},{1168,0x65c66cf63ebf6},{1168,0x6f74ef77fbc96},{1168,0x811da1cc7922a},{1168,0x829cbb02fa842},{1168,0x86c70ba8ba28d},{1168,0x9e5110745c822},{1168,0xa1e7a6aafe61b},{1168,0xadc21d1d50b09},{1168,0xaf602da396ec2},{1168,0xb0075321b38c7},{1168,0xb008215a8ad23},{1168,0xb5717322803e7},{1168,0xb791272524d32},{1168,0xb83c8558b99cd},{1168,0xba0d4df0ab97e},{1168,0xbd7293cea2966},{1168,0xbe59c175264fb},{1168,0xc4127a86cc5d9},{1168,0xcd230a7ff47c3},{1168,0xd81cd3b30de8f},{1168,0xd869cc2c2304c},{1168,0xe114cf3f6b3d4},{1168,0xe1e70f3a183ab},{1168,0xec8593474f222},{1168,0xf41e1bf48b040},{1168,0xfed5bf1c85f06},
{1169,0x192af18f7068},{1169,0x806ecd817345},{1169,0x1efc659cf7d4b},{1169,0x2446407b6880d},{1169,0x24bbf80aeeeb7},{1169,0x2ac7f2b2c0fe2},{1169,0x406b0cd17fd56},{1169,0x4c1b695c81121},{1169,0x5fcbfa3423a10},{1169,0x70dc6a25058ba},{1169,0x73e915d5c6301},{1169,0x771694f768430},{1169,0x77aa21af01d9c},{1169,0x811da1cc7922a},{1169,0x829cbb02fa842},{1169,0x892bb42b86ba7},{1169,0x906ca489da898},{1169,0x9d9577de925d4},{1169,0x9e5110745c822},{1169,0xaf602da396ec2},{1169,0xb0075321b38c7},{1169,0xb008215a8ad23},{1169,0xb5717322803e7},{1169,0xb83c8558b99cd},{1169,0xba0d4df0ab97e},{1169,0xbd7293cea2966},{1169,0xbe59c175264fb},{1169,0xc4127a86cc5d9},{1169,0xcd230a7ff47c3},{1169,0xd81cd3b30de8f},{1169,0xd869cc2c2304c},{1169,0xe1e70f3a183ab},{1169,0xe7e04657a5500},{1169,0xec8593474f222},{1169,0xf1dfe5f0f5823},{1169,0xf8cee902715fe},{1169,0xf9c2ae4fd9b5e},{1169,0xfbf6574d33f6e},
{1170,0x1e74952ee74e},{1170,0xd84be31ce25f},{1170,0x1dd800d805e7e},{1170,0x1efc659cf7d4b},{1170,0x23c75401b8b83},{1170,0x2446407b6880d},{1170,0x24bbf80aeeeb7},{1170,0x2bb61f962d72c},{1170,0x386b46c662664},{1170,0x406b0cd17fd56},{1170,0x4d1e71155e63c},{1170,0x57a3c416b74eb},{1170,0x5fcbfa3423a10},{1170,0x70dc6a25058ba},{1170,0x7eeed0501135e},{1170,0x829cbb02fa842},{1170,0x8f598cd585bff},{1170,0x901e4be44e3be},{1170,0x9d9577de925d4},{1170,0xa0212cf0675ad},{1170,0xa602f4c46a0c8},{1170,0xb0075321b38c7},{1170,0xb8c0b9e4a2e36},{1170,0xba0d4df0ab97e},{1170,0xbd7293cea2966},{1170,0xbe59c175264fb},{1170,0xc1329253023f4},{1170,0xccce2f3f92a20},{1170,0xcd230a7ff47c3},{1170,0xd81cd3b30de8f},{1170,0xd869cc2c2304c},{1170,0xdcb4758deb46a},{1170,0xec8593474f222},{1170,0xf1dfe5f0f5823},{1170,0xf9c2ae4fd9b5e},{1170,0xfbf6574d33f6e},
{1171,0x1e74952ee74e},{1171,0xc8c0d6ba6a0b},{1171,0xd84be31ce25f},{1171,0x1159a8bd8a23f},{1171,0x13528ca816575},{1171,0x19205b1e5e88b},{1171,0x1efc659cf7d4b},{1171,0x21b0f3000cad1},{1171,0x2292c07bbaedc},{1171,0x37f15eaf1ce52},{1171,0x386b46c662664},{1171,0x3892d178d6e28},{1171,0x3bf331e40fb0f},{1171,0x4d1e71155e63c},{1171,0x5d8400e4ae753},{1171,0x6325242572b0d},{1171,0x66bb7f0435c9e},{1171,0x6f3e599ebf501},{1171,0x72e1b6c36c855},{1171,0x746f7eb7496bf},{1171,0x7eeed0501135e},{1171,0x829cbb02fa842},{1171,0x8db0d4bf1626d},{1171,0x97e04be4e29bd},{1171,0x9d9577de925d4},{1171,0x9e30b20f59e62},{1171,0xa3b787cf2a73e},{1171,0xa496af373eb67},{1171,0xa602f4c46a0c8},{1171,0xa7b5752146931},{1171,0xae7a986b73bf1},{1171,0xb8c0b9e4a2e36},{1171,0xba0d4df0ab97e},{1171,0xbd7293cea2966},{1171,0xc1329253023f4},{1171,0xc4ce422daf66e},{1171,0xcb3b4a941a1c5},{1171,0xccce2f3f92a20},{1171,0xcd230a7ff47c3},{1171,0xd81cd3b30de8f},{1171,0xdcb4758deb46a},{1171,0xe449eb78e236f},{1171,0xe4fe5cd201b59},{1171,0xf639b1d2b1b44},{1171,0xf9c2ae4fd9b5e},{1171,0xfbf6574d33f6e},{1171,0xfd11f511fc5ad},
{1172,0x1e74952ee74e},{1172,0x1e921453dc33},{1172,0x31dbdb47d86a},{1172,0xf9d4954548b4},{1172,0x1159a8bd8a23f},{1172,0x13528ca816575},{1172,0x1efc659cf7d4b},{1172,0x21b0f3000cad1},{1172,0x2292c07bbaedc},{1172,0x3892d178d6e28},{1172,0x3bf331e40fb0f},{1172,0x4d1e71155e63c},{1172,0x50599ac987f1f},{1172,0x5d8400e4ae753},{1172,0x6325242572b0d},{1172,0x66bb7f0435c9e},{1172,0x72e1b6c36c855},{1172,0x7ce6e3598d4b0},{1172,0x829cbb02fa842},{1172,0x9e30b20f59e62},{1172,0xa3b787cf2a73e},{1172,0xa496af373eb67},{1172,0xa7b5752146931},{1172,0xadd1a2eefe3e4},{1172,0xb7fe8fcbf8426},{1172,0xb8c0b9e4a2e36},{1172,0xba0d4df0ab97e},{1172,0xbd7293cea2966},{1172,0xc1329253023f4},{1172,0xccce2f3f92a20},{1172,0xcd1384ae46ee8},{1172,0xd1ac0f239402a},{1172,0xd4dc3a354253c},{1172,0xd81cd3b30de8f},{1172,0xdc9569ea902b4},{1172,0xdcb4758deb46a},{1172,0xde8d984287cf4},{1172,0xe38910b59fa4e},{1172,0xe449eb78e236f},{1172,0xe4fe5cd201b59},{1172,0xe5e705c309d84},{1172,0xec55666d8f9ec},{1172,0xf83b179a238f8},{1172,0xf9c2ae4fd9b5e},{1172,0xfbf6574d33f6e},{1172,0xfd11f511fc5ad},
{1173,0x1e74952ee74e},{1173,0x1e921453dc33},{1173,0x31dbdb47d86a},{1173,0x1159a8bd8a23f},{1173,0x13528ca816575},{1173,0x1eee2994a6ba1},{1173,0x1efc659cf7d4b},{1173,0x21b0f3000cad1},{1173,0x2292c07bbaedc},{1173,0x30d9a1c3890af},{1173,0x3785802fa1a82},{1173,0x3df644bf1b8e7},{1173,0x4acd046ae96e9},{1173,0x4d1e71155e63c},{1173,0x500bfdb1242d8},{1173,0x53ee8481ae02b},{1173,0x5d8400e4ae753},{1173,0x5e9585d2948f4},{1173,0x6325242572b0d},{1173,0x642f019c7bb75},{1173,0x66bb7f0435c9e},{1173,0x829cbb02fa842},{1173,0x9174ec0efbabc},{1173,0x9e30b20f59e62},{1173,0xa3b787cf2a73e},{1173,0xb8c0b9e4a2e36},{1173,0xc1329253023f4},{1173,0xc4ca8604a0360},{1173,0xccce2f3f92a20},{1173,0xcd1384ae46ee8},{1173,0xce597ee1838df},{1173,0xd4e3fd1e191a9},{1173,0xd81cd3b30de8f},{1173,0xdc9569ea902b4},{1173,0xdcb4758deb46a},{1173,0xde379aa26b362},{1173,0xe449eb78e236f},{1173,0xe484edfdbd72b},{1173,0xe4fe5cd201b59},{1173,0xec55666d8f9ec},{1173,0xf425dedd61cad},{1173,0xf673678db710f},{1173,0xfbf6574d33f6e},{1173,0xfc1562f08f124},{1173,0xfd11f511fc5ad},
{1174,0x1e921453dc33},{1174,0x414bc164098c},{1174,0xac617ef4c59c},{1174,0xd0c9f4328576},{1174,0x106ba56cf23ea},{1174,0x13528ca816575},{1174,0x1769eea5557cb},{1174,0x17bd87e1bb659},{1174,0x2119a54089977},{1174,0x2292c07bbaedc},{1174,0x30d9a1c3890af},{1174,0x3df644bf1b8e7},{1174,0x53ee8481ae02b},{1174,0x573dcb43d0a7a},{1174,0x57c15d3bc7414},{1174,0x6325242572b0d},{1174,0x642f019c7bb75},{1174,0x66bb7f0435c9e},{1174,0x771e57e03f09d},{1174,0x81a3288aed05d},{1174,0x86b785d70c9b2},{1174,0x872de7b4447b6},{1174,0x8b098c3914bbb},{1174,0x9174ec0efbabc},{1174,0x9853c0e57f045},{1174,0x9e30b20f59e62},{1174,0xa3b787cf2a73e},{1174,0xa8803cc9d52ec},{1174,0xc4ca8604a0360},{1174,0xc5430c3e74c27},{1174,0xccce2f3f92a20},{1174,0xcfb5167ab6bab},{1174,0xd55aa3f85c9f9},{1174,0xd81cd3b30de8f},{1174,0xd8e6248f36c76},{1174,0xde379aa26b362},{1174,0xe449eb78e236f},{1174,0xe4fe5cd201b59},{1174,0xec55666d8f9ec},{1174,0xf673678db710f},{1174,0xfc1562f08f124},{1174,0xfd11f511fc5ad},
{1175,0x1e921453dc33},{1175,0x106ba56cf23ea},{1175,0x1769eea5557cb},{1175,0x1c8d70d2b114e},{1175,0x2292c07bbaedc},{1175,0x28f9a38209513},{1175,0x30d9a1c3890af},{1175,0x39e40f23af10a},{1175,0x3df644bf1b8e7},{1175,0x46b16979236ef},{1175,0x573dcb43d0a7a},{1175,0x6325242572b0d},{1175,0x66bb7f0435c9e},{1175,0x86b785d70c9b2},{1175,0x8c5169e1a0139},{1175,0x8e9784188c54e},{1175,0x9174ec0efbabc},{1175,0x917a50c88ea20},{1175,0x9853c0e57f045},{1175,0xa3b787cf2a73e},{1175,0xb1932ff611525},{1175,0xb1b9df26e7545},{1175,0xb2f68a01e79e6},{1175,0xc5430c3e74c27},{1175,0xcfb5167ab6bab},{1175,0xd55aa3f85c9f9},{1175,0xd81cd3b30de8f},{1175,0xd8cc39560230a},{1175,0xd8e6248f36c76},{1175,0xde379aa26b362},{1175,0xe449eb78e236f},{1175,0xec55666d8f9ec},{1175,0xfa735e16a8ae8},{1175,0xfc1562f08f124},{1175,0xfd11f511fc5ad},{1175,0xfea677700a7f9},{1175,0xffde93851d0cf},
{1176,0x1e921453dc33},{1176,0x979aa7c0a6a3},{1176,0x137876da1bf4a},{1176,0x1769eea5557cb},{1176,0x2509a46149745},{1176,0x28f9a38209513},{1176,0x2a32419519830},{1176,0x2b4d4bbeabbf2},{1176,0x30d9a1c3890af},{1176,0x3df644bf1b8e7},{1176,0x43dea2ba507c8},{1176,0x46b16979236ef},{1176,0x4a75b60bc42c6},{1176,0x504fc713f26d4},{1176,0x51ddac437ac82},{1176,0x5b85a30c141b9},{1176,0x66bb7f0435c9e},{1176,0x8aa784f7cc780},{1176,0x8c5169e1a0139},{1176,0x8e0606b8c0074},{1176,0x9174ec0efbabc},{1176,0x9287fd0742ba8},{1176,0x9853c0e57f045},{1176,0x9c42192d587cd},{1176,0xc4d801d48f9da},{1176,0xc5430c3e74c27},{1176,0xd4b56ba910718},{1176,0xd81cd3b30de8f},{1176,0xd8cc39560230a},{1176,0xde379aa26b362},{1176,0xe449eb78e236f},{1176,0xec55666d8f9ec},{1176,0xf1ce5e95d7e1e},{1176,0xfc1562f08f124},{1176,0xfea677700a7f9},{1176,0xffde93851d0cf},
{1177,0x33d7eca0adee},{1177,0x1769eea5557cb},{1177,0x1d29a61fc9ba9},{1177,0x2701a3f1a962c},{1177,0x2a252413a15d9},{1177,0x30d9a1c3890af},{1177,0x311b79881f75a},{1177,0x3df644bf1b8e7},{1177,0x46b16979236ef},{1177,0x4a75b60bc42c6},{1177,0x504fc713f26d4},{1177,0x5b85a30c141b9},{1177,0x82c786b64cbe4},{1177,0x88af85676c899},{1177,0x8aa784f7cc780},{1177,0x9677825a0c0ea},{1177,0x9e4e5e1793070},{1177,0xa59f681582193},{1177,0xa6f9879a04ed3},{1177,0xab226b66976c0},{1177,0xb5fb97d4079bc},{1177,0xc1a1a55269c6d},{1177,0xd81cd3b30de8f},{1177,0xdb0f49d33f612},{1177,0xdf8bf8273851d},{1177,0xe449eb78e236f},{1177,0xe631cbbf39dc4},{1177,0xe865674ccfc1e},{1177,0xec55666d8f9ec},{1177,0xf215d530b320b},{1177,0xfc1562f08f124},{1177,0xfea677700a7f9},
{1178,0x33d7eca0adee},{1178,0x26d99a6ae785a},{1178,0x2701a3f1a962c},{1178,0x27fda3b9d95a0},{1178,0x311b79881f75a},{1178,0x3df644bf1b8e7},{1178,0x43cfe273c2a1f},{1178,0x44604b669dc0f},{1178,0x44899d67485b5},{1178,0x4a75b60bc42c6},{1178,0x504fc713f26d4},{1178,0x5b85a30c141b9},{1178,0x5d982160ff9b7},{1178,0x650d046bca562},{1178,0x6c85c9fbdfa1c},{1178,0x6d360b06631be},{1178,0x82889a86a95de},{1178,0x82c786b64cbe4},{1178,0x885d12ec9ad4d},{1178,0x89ab852f9c80c},{1178,0x8c9f84882c667},{1178,0x98060cf7e7579},{1178,0x9e4e5e1793070},{1178,0xab226b66976c0},{1178,0xc1a1a55269c6d},{1178,0xd13b28b975c1d},{1178,0xe449eb78e236f},{1178,0xe631cbbf39dc4},{1178,0xe865674ccfc1e},{1178,0xec55666d8f9ec},{1178,0xef0a1260e32b6},{1178,0xf215d530b320b},{1178,0xf23d651eaf6a1},{1178,0xfc1562f08f124},{1178,0xfea677700a7f9},
{1179,0x33d7eca0adee},{1179,0xad0282d74ece},{1179,0xc2c5775036ba},{1179,0x10ee60a2b5a9e},{1179,0x1351a84dea126},{1179,0x20aae03563487},{1179,0x26d99a6ae785a},{1179,0x2701a3f1a962c},{1179,0x36496b9ff4f94},{1179,0x38a7a83b55d90},{1179,0x3df644bf1b8e7},{1179,0x44604b669dc0f},{1179,0x44899d67485b5},{1179,0x504fc713f26d4},{1179,0x58569490a2f1c},{1179,0x5b85a30c141b9},{1179,0x650d046bca562},{1179,0x6afe28db81730},{1179,0x6d360b06631be},{1179,0x74b7a544a25d9},{1179,0x87b3859f3c925},{1179,0x89ab852f9c80c},{1179,0x8c9f84882c667},{1179,0x98060cf7e7579},{1179,0xab226b66976c0},{1179,0xb54a08ee5a20a},{1179,0xbb0075ce960fc},{1179,0xcadd6dd730c95},{1179,0xd55093ba340c7},{1179,0xdc7104b197702},{1179,0xec55666d8f9ec},{1179,0xed516635bf960},{1179,0xf15a05f7a6a53},{1179,0xf83c70c8884d1},{1179,0xfc1562f08f124},
{1180,0x33d7eca0adee},{1180,0xfc4ca12b54c5},{1180,0x10ee60a2b5a9e},{1180,0x18427b3b4a05b},{1180,0x20aae03563487},{1180,0x2701a3f1a962c},{1180,0x2beda2da9936e},{1180,0x2fc0a1531eaf5},{1180,0x3425419aea9a8},{1180,0x38a7a83b55d90},{1180,0x3df644bf1b8e7},{1180,0x3e1841a0bbb20},{1180,0x46ac615a0f256},{1180,0x504fc713f26d4},{1180,0x575a94c872fa9},{1180,0x5c43c3dc327fc},{1180,0x61ccbf509d98c},{1180,0x6afe28db81730},{1180,0x6d360b06631be},{1180,0x75c19280a6a44},{1180,0x7e53fc970b609},{1180,0x87b3859f3c925},{1180,0x966065e2c4eeb},{1180,0x99745a8d99d3f},{1180,0x9b195ac3d1edc},{1180,0x9fe8dfc17393a},{1180,0xa463b8d8ef089},{1180,0xbcf8755ef5fe3},{1180,0xc50df1144d3c2},{1180,0xca8c0104f1d93},{1180,0xcadd6dd730c95},{1180,0xcdbdea56c9fe7},{1180,0xe3796863dfedd},{1180,0xed516635bf960},{1180,0xf83c70c8884d1},{1180,0xfa410cdfddcee},{1180,0xfc1562f08f124},{1180,0xfd0bf5c629f2f},
{1181,0x33d7eca0adee},{1181,0x1b2e15c87acf7},{1181,0x1bb160327abcb},{1181,0x20aae03563487},{1181,0x2701a3f1a962c},{1181,0x28be44c3c2092},{1181,0x2beda2da9936e},{1181,0x2fc0a1531eaf5},{1181,0x3df644bf1b8e7},{1181,0x43930a91ad7aa},{1181,0x45facd107e4d9},{1181,0x5e531a0a1c872},{1181,0x6d360b06631be},{1181,0x71fd0ca84fb08},{1181,0x75c19280a6a44},{1181,0x87b3859f3c925},{1181,0x966065e2c4eeb},{1181,0x99745a8d99d3f},{1181,0xa255fd7f19484},{1181,0xa31de31534ace},{1181,0xa463b8d8ef089},{1181,0xb7627723e6f03},{1181,0xba11d13304020},{1181,0xbb2b7c095cea4},{1181,0xc1e47447e5d25},{1181,0xc4f2a61f2e29e},{1181,0xc50df1144d3c2},{1181,0xcadd6dd730c95},{1181,0xd58820e63b135},{1181,0xe372ae2cac7d1},{1181,0xe3796863dfedd},{1181,0xe8336025c2ced},{1181,0xea7457a7c18a0},{1181,0xf7c44cde69890},{1181,0xfa410cdfddcee},{1181,0xfd0bf5c629f2f},
{1182,0x33d7eca0adee},{1182,0x15681ff9ca6e2},{1182,0x1ad0d5ada5fbc},{1182,0x22f4a94b4e3fd},{1182,0x2701a3f1a962c},{1182,0x2beda2da9936e},{1182,0x2fc0a1531eaf5},{1182,0x37b5530ee8974},{1182,0x3cb81ce89644a},{1182,0x3df644bf1b8e7},{1182,0x5cb74eb6456c5},{1182,0x649a7df05c41a},{1182,0x64abd0b861558},{1182,0x7d80e5d43a33f},{1182,0x832531cc95df6},{1182,0x87b3859f3c925},{1182,0x8e2397ecf705b},{1182,0x9314d2726f2ea},{1182,0x966065e2c4eeb},{1182,0x99745a8d99d3f},{1182,0x9f1b9eec834d5},{1182,0xa255fd7f19484},{1182,0xa86b68d8c0621},{1182,0xbce98a07b8b5e},{1182,0xc4f2a61f2e29e},{1182,0xcadd6dd730c95},{1182,0xd2aeee55e2e01},{1182,0xe0002a45d13b0},{1182,0xe1cd2b776df11},{1182,0xea7457a7c18a0},{1182,0xf685998676727},{1182,0xfa410cdfddcee},{1182,0xfc3eb4f139aca},
{1183,0x33d7eca0adee},{1183,0x15681ff9ca6e2},{1183,0x19c736789b7b0},{1183,0x204ee59e4a98d},{1183,0x29c6a2eefea61},{1183,0x2fc0a1531eaf5},{1183,0x3039cbe955503},{1183,0x3452dfe197bdc},{1183,0x3df644bf1b8e7},{1183,0x5746e44030586},{1183,0x60138468e1ca6},{1183,0x6d8184d8936b5},{1183,0x6fd741bdd1278},{1183,0x728b35fe80cd7},{1183,0x76e90b913f849},{1183,0x782d9e697c7da},{1183,0x7ebf45d4f456e},{1183,0x7f4e48983e0b7},{1183,0x8380e71bbd4ee},{1183,0x87b3859f3c925},{1183,0x99745a8d99d3f},{1183,0xa255fd7f19484},{1183,0xa720273de60c7},{1183,0xafe6effe53a92},{1183,0xbce98a07b8b5e},{1183,0xc12b13e27541a},{1183,0xc9594a0efe134},{1183,0xd2aeee55e2e01},{1183,0xe0002a45d13b0},{1183,0xe34225a04aa5e},{1183,0xf685998676727},{1183,0xfa410cdfddcee},{1183,0xfc3eb4f139aca},{1183,0xfed540a92d346},
{1184,0x21ab1124d2f1},{1184,0x33d7eca0adee},{1184,0x15681ff9ca6e2},{1184,0x238865d39ab00},{1184,0x29c6a2eefea61},{1184,0x29eaeff3a4b0a},{1184,0x2fc0a1531eaf5},{1184,0x31a881997654a},{1184,0x3452dfe197bdc},{1184,0x3f30da347bde5},{1184,0x40fe624f7f9ae},{1184,0x4d8296f693526},{1184,0x4ea11315d90d5},{1184,0x5e531a0a1c872},{1184,0x664b646c84791},{1184,0x6fd741bdd1278},{1184,0x728b35fe80cd7},{1184,0x76e90b913f849},{1184,0x7da9681b092e8},{1184,0x7ebf45d4f456e},{1184,0x7f097da6f850d},{1184,0x8380e71bbd4ee},{1184,0x88d36a75820d6},{1184,0x8e1cc52faf412},{1184,0xb5e7e08ca3a8f},{1184,0xbc80295a6912e},{1184,0xc9594a0efe134},{1184,0xca49b14ee4593},{1184,0xce7c4fd2639ca},{1184,0xd2aeee55e2e01},{1184,0xe5f6807a386cb},{1184,0xf3366b819bda3},{1184,0xf685998676727},{1184,0xfa410cdfddcee},{1184,0xfc3eb4f139aca},
{1185,0x33d7eca0adee},{1185,0x15681ff9ca6e2},{1185,0x1a730031c099c},{1185,0x3288b6c8d8f64},{1185,0x366c2f23575f7},{1185,0x38857e6517013},{1185,0x3f30da347bde5},{1185,0x664b646c84791},{1185,0x6c529a610ad92},{1185,0x728b35fe80cd7},{1185,0x72b1d4b7efccc},{1185,0x76e90b913f849},{1185,0x7aeb834242d61},{1185,0x8380e71bbd4ee},{1185,0x8be62422bbd5c},{1185,0x8e1cc52faf412},{1185,0x8e7e87384d402},{1185,0x9d9fb797aeb4e},{1185,0x9fbbc3a39f46a},{1185,0xa0e33cb43826f},{1185,0xb5e7e08ca3a8f},{1185,0xbc80295a6912e},{1185,0xca49b14ee4593},{1185,0xd0959f14233e5},{1185,0xd4f40ac2d8f0b},{1185,0xdb609b1d2370e},{1185,0xdbb5187d4b4b7},{1185,0xebffbe7609321},{1185,0xf3366b819bda3},{1185,0xfa410cdfddcee},{1185,0xfc3eb4f139aca},
{1186,0x3222fab7a8dc},{1186,0x33d7eca0adee},{1186,0xed83f7de5bc5},{1186,0x15eb2840442f4},{1186,0x1a730031c099c},{1186,0x2f68ffe4494db},{1186,0x38857e6517013},{1186,0x3f30da347bde5},{1186,0x46e8f6a52a75d},{1186,0x486de8697abeb},{1186,0x5840bd5ece2df},{1186,0x6c529a610ad92},{1186,0x728b35fe80cd7},{1186,0x80674cf3cf86f},{1186,0x816797d9fdad3},{1186,0x8380e71bbd4ee},{1186,0x8e1cc52faf412},{1186,0x8e7e87384d402},{1186,0x9d6cd1826d860},{1186,0x9d9fb797aeb4e},{1186,0xa0e33cb43826f},{1186,0xa3322ed569e79},{1186,0xaa0b4317f046a},{1186,0xca49b14ee4593},{1186,0xcbcd122d45716},{1186,0xd0959f14233e5},{1186,0xd4c83d97a281c},{1186,0xdb1aa90eb6fe1},{1186,0xdb609b1d2370e},{1186,0xead0d3fe809fe},{1186,0xebffbe7609321},{1186,0xf71ffb1056361},{1186,0xfa410cdfddcee},{1186,0xfc3eb4f139aca},
{1187,0x33d7eca0adee},{1187,0x4a07d81aca66},{1187,0x9a7be354c898},{1187,0x15eb2840442f4},{1187,0x1a730031c099c},{1187,0x36ca48cc31b0b},{1187,0x38857e6517013},{1187,0x3f30da347bde5},{1187,0x411ee150a7843},{1187,0x430ce86cd32a1},{1187,0x486de8697abeb},{1187,0x506e9b30dcc9e},{1187,0x5478c3b506ecf},{1187,0x5840bd5ece2df},{1187,0x5cf68b1f8a573},{1187,0x6bf897d694259},{1187,0x6c6a7f48815c0},{1187,0x7f2ae47b0f33d},{1187,0x816797d9fdad3},{1187,0x8c1cb98978615},{1187,0x8e1cc52faf412},{1187,0x9d9fb797aeb4e},{1187,0xa0e33cb43826f},{1187,0xa8f78c2866492},{1187,0xad5f4b1221ce2},{1187,0xb4ec583521289},{1187,0xb5e7e08ca3a8f},{1187,0xc92beb7902b6e},{1187,0xd4c83d97a281c},{1187,0xead0d3fe809fe},{1187,0xebffbe7609321},{1187,0xef1978a1605ce},{1187,0xf9394a5215d7c},{1187,0xfa410cdfddcee},
{1188,0x33d7eca0adee},{1188,0x11b0ec57e6499},{1188,0x1a730031c099c},{1188,0x1e92fdf361d3c},{1188,0x38857e6517013},{1188,0x411ee150a7843},{1188,0x425503722a73d},{1188,0x44dc5d3ab91c8},{1188,0x486de8697abeb},{1188,0x5277fed6cc2e9},{1188,0x552a41934611e},{1188,0x5cf68b1f8a573},{1188,0x6cfe3bd0cdcc2},{1188,0x6f2f117cc4023},{1188,0x6f41e6ea8a798},{1188,0x7707296445bf6},{1188,0x791dd4266d755},{1188,0x7f2ae47b0f33d},{1188,0x87c2ee5c0705b},{1188,0x8e1cc52faf412},{1188,0x8f2b168624646},{1188,0x968f4fe3585b2},{1188,0x9d9fb797aeb4e},{1188,0xa8f78c2866492},{1188,0xad5f4b1221ce2},{1188,0xb4ec583521289},{1188,0xb5e7e08ca3a8f},{1188,0xc43845cb17aa6},{1188,0xc92beb7902b6e},{1188,0xd3a0c48709a17},{1188,0xd4c83d97a281c},{1188,0xd6e163b4e2711},{1188,0xdddd5b1e97b6c},{1188,0xead0d3fe809fe},{1188,0xeca4dc9e381e1},{1188,0xeebabe0957af3},{1188,0xef1978a1605ce},{1188,0xff88040530009},
{1189,0x9655c795954},{1189,0xcccd7f1d6e4},{1189,0x33d7eca0adee},{1189,0x1a730031c099c},{1189,0x1e92fdf361d3c},{1189,0x257a30d33c8c0},{1189,0x2d0f6a60b0842},{1189,0x2fcc1094c4bd3},{1189,0x38857e6517013},{1189,0x411ee150a7843},{1189,0x486de8697abeb},{1189,0x4c696a5db876f},{1189,0x552a41934611e},{1189,0x5cf68b1f8a573},{1189,0x63cc667244f94},{1189,0x6612ce4e272cb},{1189,0x6738de7dd16a9},{1189,0x68af48c29dd1a},{1189,0x6cfe3bd0cdcc2},{1189,0x6f2f117cc4023},{1189,0x6f41e6ea8a798},{1189,0x791dd4266d755},{1189,0x7c282da82c284},{1189,0x7f2ae47b0f33d},{1189,0x8f2b168624646},{1189,0x93a01e3737583},{1189,0x9a896283d96e6},{1189,0xad5f4b1221ce2},{1189,0xb4ec583521289},{1189,0xb5e7e08ca3a8f},{1189,0xc43845cb17aa6},{1189,0xd4c83d97a281c},{1189,0xd6e163b4e2711},{1189,0xd7848ce4cc252},{1189,0xead0d3fe809fe},{1189,0xfe1d1b18351aa},{1189,0xff88040530009},
{1190,0x9655c795954},{1190,0xcccd7f1d6e4},{1190,0x33d7eca0adee},{1190,0x81ca6a19f81e},{1190,0x11b0ec57e6499},{1190,0x1e92fdf361d3c},{1190,0x257a30d33c8c0},{1190,0x38857e6517013},{1190,0x411ee150a7843},{1190,0x45c89ce217cff},{1190,0x46667800f1347},{1190,0x4b4d96ecf6610},{1190,0x54c6f0f7fdef3},{1190,0x63bae24a9144a},{1190,0x63cc667244f94},{1190,0x6612ce4e272cb},{1190,0x722aac0cb53b2},{1190,0x791dd4266d755},{1190,0x7c282da82c284},{1190,0x7f2ae47b0f33d},{1190,0x80aae1496ccfc},{1190,0x8f2b168624646},{1190,0x93a01e3737583},{1190,0x9a896283d96e6},{1190,0xabadaaa47f1c2},{1190,0xb4ec583521289},{1190,0xbb6979ae39c48},{1190,0xbc52ec15cebaf},{1190,0xc43845cb17aa6},{1190,0xc7851f1aa1b30},{1190,0xd6e163b4e2711},{1190,0xd7efb50b57945},{1190,0xe92dcf20d5816},{1190,0xeebabe0957af3},{1190,0xf476f78b5add4},{1190,0xfe1d1b18351aa},{1190,0xff88040530009},
{1191,0x9655c795954},{1191,0xaf82e7c06d5b},{1191,0xb5bfadfb0cec},{1191,0x11b0ec57e6499},{1191,0x1308434d6910a},{1191,0x1e92fdf361d3c},{1191,0x257a30d33c8c0},{1191,0x35e8bc370c2fb},{1191,0x411ee150a7843},{1191,0x46667800f1347},{1191,0x4f4c26599f16f},{1191,0x63bae24a9144a},{1191,0x63cc667244f94},{1191,0x6612ce4e272cb},{1191,0x791dd4266d755},{1191,0x7c282da82c284},{1191,0x7cd97642af427},{1191,0x7f2ae47b0f33d},{1191,0x80aae1496ccfc},{1191,0x85535a703cb43},{1191,0x8f2b168624646},{1191,0x93f9940ad4778},{1191,0x9a896283d96e6},{1191,0xad02c46361ef8},{1191,0xbb6979ae39c48},{1191,0xbc52ec15cebaf},{1191,0xc43845cb17aa6},{1191,0xd6e163b4e2711},{1191,0xdb1fee91fcb11},{1191,0xdded780d7f5dc},{1191,0xe170911575d19},{1191,0xeebabe0957af3},{1191,0xf476f78b5add4},{1191,0xff88040530009},
{1192,0x9655c795954},{1192,0x1a7454b57d6e},{1192,0xaf82e7c06d5b},{1192,0xb5bfadfb0cec},{1192,0xc52fe6dc6a1b},{1192,0xe451c96cd024},{1192,0x11b0ec57e6499},{1192,0x257a30d33c8c0},{1192,0x32e04b8f5b7d6},{1192,0x35e8bc370c2fb},{1192,0x411ee150a7843},{1192,0x46667800f1347},{1192,0x46aa0c568e7d4},{1192,0x5aaf7a53e321d},{1192,0x63bae24a9144a},{1192,0x6612ce4e272cb},{1192,0x6a2a3322c0888},{1192,0x6ff187f95eb67},{1192,0x717622486b379},{1192,0x791dd4266d755},{1192,0x7cd97642af427},{1192,0x80aae1496ccfc},{1192,0x81b3d4705df4e},{1192,0x87eafbe7c89a1},{1192,0x8cb4b0b490b8b},{1192,0x8ea3eddae9d2c},{1192,0x8f2b168624646},{1192,0x907445ba0a408},{1192,0x9147b9330eaae},{1192,0x9a896283d96e6},{1192,0x9ab8601e1e182},{1192,0xad02c46361ef8},{1192,0xbb6979ae39c48},{1192,0xbc52ec15cebaf},{1192,0xc43845cb17aa6},{1192,0xd4b22e56872ad},{1192,0xdc579eab3943d},{1192,0xdded780d7f5dc},{1192,0xeebabe0957af3},{1192,0xf476f78b5add4},{1192,0xff75d34443265},{1192,0xff88040530009},
{1193,0x1a7454b57d6e},{1193,0x77feca759830},{1193,0xb5bfadfb0cec},{1193,0xc52fe6dc6a1b},{1193,0x257a30d33c8c0},{1193,0x32e04b8f5b7d6},{1193,0x35e8bc370c2fb},{1193,0x420907dc9e482},{1193,0x43e8d25f5b0c1},{1193,0x450218a861776},{1193,0x46667800f1347},{1193,0x6061245105274},{1193,0x63bae24a9144a},{1193,0x6612ce4e272cb},{1193,0x6aea916e5970d},{1193,0x6bc4784b49322},{1193,0x6ff187f95eb67},{1193,0x7cd97642af427},{1193,0x80aae1496ccfc},{1193,0x8f2b168624646},{1193,0x9147b9330eaae},{1193,0x9a896283d96e6},{1193,0xb5ca1a260378d},{1193,0xbc52ec15cebaf},{1193,0xd43d985cbd98f},{1193,0xd4b22e56872ad},{1193,0xdc579eab3943d},{1193,0xdded780d7f5dc},{1193,0xea1e42a7e2d05},{1193,0xf010ac5f51656},{1193,0xf357396acc8e0},{1193,0xf476f78b5add4},{1193,0xff75d34443265},{1193,0xff88040530009},
{1194,0x1a7454b57d6e},{1194,0xb5bfadfb0cec},{1194,0xc52fe6dc6a1b},{1194,0x10277a880f6b8},{1194,0x1cb33370a50fe},{1194,0x2472574de83b2},{1194,0x35e8bc370c2fb},{1194,0x4129134a62535},{1194,0x43e8d25f5b0c1},{1194,0x47b85dad03a08},{1194,0x4e51da095fbcd},{1194,0x6061245105274},{1194,0x63bae24a9144a},{1194,0x6ff187f95eb67},{1194,0x70bdd0d64753f},{1194,0x7cd97642af427},{1194,0x8f2b168624646},{1194,0x9147b9330eaae},{1194,0xa40f1531653ea},{1194,0xb36b9b9def57f},{1194,0xc964e99d5e76e},{1194,0xd43d985cbd98f},{1194,0xd7ac55220f54f},{1194,0xdc579eab3943d},{1194,0xdded780d7f5dc},{1194,0xea1400cd65289},{1194,0xeebabe0957af3},{1194,0xf4c4ea08d4277},{1194,0xff75d34443265},{1194,0xff88040530009},
{1195,0x1a7454b57d6e},{1195,0xc52fe6dc6a1b},{1195,0x18f7eafc5c7a6},{1195,0x22f0afe9fe1b5},{1195,0x2d87d6f1a3fdf},{1195,0x340d97ed7995c},{1195,0x4e51da095fbcd},{1195,0x6061245105274},{1195,0x6784da135d964},{1195,0x6e9d4d49da34d},{1195,0x6ff187f95eb67},{1195,0x70bdd0d64753f},{1195,0x7b72b184edec1},{1195,0x84efbace6ea0e},{1195,0x8c74a76ca18c3},{1195,0x9147b9330eaae},{1195,0xa40bd5981ff32},{1195,0xb36b9b9def57f},{1195,0xc964e99d5e76e},{1195,0xd43d985cbd98f},{1195,0xdc579eab3943d},{1195,0xdded780d7f5dc},{1195,0xe38da3972a6f9},{1195,0xe9ee2d6c6e69b},{1195,0xea1400cd65289},{1195,0xeebabe0957af3},{1195,0xf4c4ea08d4277},{1195,0xff75d34443265},
{1196,0x848db3cc3dd7},{1196,0xc52fe6dc6a1b},{1196,0x1685043598eb0},{1196,0x18f7eafc5c7a6},{1196,0x19345774dbe34},{1196,0x2c5b68ad7d5c5},{1196,0x2d87d6f1a3fdf},{1196,0x340d97ed7995c},{1196,0x39680844cce1d},{1196,0x4c63d2ed3416f},{1196,0x4ebcaf75815a3},{1196,0x52d98d71bbe50},{1196,0x6061245105274},{1196,0x6e9d4d49da34d},{1196,0x74554e8c7ff2c},{1196,0x7b72b184edec1},{1196,0x8c74a76ca18c3},{1196,0x9147b9330eaae},{1196,0xa40bd5981ff32},{1196,0xa78df12d2e6b3},{1196,0xb6a70081fecfd},{1196,0xb8796d6546711},{1196,0xc5267fa968e48},{1196,0xc6b5965e1b7ea},{1196,0xc964e99d5e76e},{1196,0xceace4852ee0d},{1196,0xd062a194f0d01},{1196,0xd43d985cbd98f},{1196,0xdc579eab3943d},{1196,0xdded780d7f5dc},{1196,0xe9ee2d6c6e69b},{1196,0xf4c4ea08d4277},{1196,0xf63409b89ff97},{1196,0xfa1d5ea68ba6e},
{1197,0x848db3cc3dd7},{1197,0xc52fe6dc6a1b},{1197,0x15b57b7912b6b},{1197,0x1862b3a4bc5cb},{1197,0x18f7eafc5c7a6},{1197,0x1c57338da1ff0},{1197,0x1ced6aafb54fd},{1197,0x2c5b68ad7d5c5},{1197,0x2d87d6f1a3fdf},{1197,0x4c63d2ed3416f},{1197,0x4ebcaf75815a3},{1197,0x52d98d71bbe50},{1197,0x56cf76605854f},{1197,0x57022fc35553b},{1197,0x6061245105274},{1197,0x61a7c0e830bd5},{1197,0x63e0004cce53d},{1197,0x74554e8c7ff2c},{1197,0x7b72b184edec1},{1197,0x82381cc13532f},{1197,0x9147b9330eaae},{1197,0xb5bc4fbf7984d},{1197,0xb8796d6546711},{1197,0xceace4852ee0d},{1197,0xdc4d88f8cea54},{1197,0xdded780d7f5dc},{1197,0xe4a4d4cc309ae},{1197,0xe9ee2d6c6e69b},{1197,0xeebabe0957af3},{1197,0xf4c4ea08d4277},{1197,0xf53e1dbe84014},{1197,0xfa1d5ea68ba6e},
{1198,0x405c84ccf4aa},{1198,0x7e00954b41a2},{1198,0x848db3cc3dd7},{1198,0xc52fe6dc6a1b},{1198,0x14a0348ebdf8c},{1198,0x1818656225b2f},{1198,0x1c57338da1ff0},{1198,0x1ced6aafb54fd},{1198,0x272fc7640095a},{1198,0x2a40695e89ddf},{1198,0x2c5b68ad7d5c5},{1198,0x2d9eafa8bd15b},{1198,0x3454ffc6e4825},{1198,0x36b8b3c1648bf},{1198,0x3c5f9dcd58b9a},{1198,0x4ebcaf75815a3},{1198,0x56cf76605854f},{1198,0x6061245105274},{1198,0x7b72b184edec1},{1198,0x82381cc13532f},{1198,0x8c6d48db25cc2},{1198,0x9147b9330eaae},{1198,0xa1c0ccbf2ac0d},{1198,0xa5caf72a4f938},{1198,0xac7d11ac5846d},{1198,0xb8796d6546711},{1198,0xcbbffc05c500d},{1198,0xceace4852ee0d},{1198,0xdc4d88f8cea54},{1198,0xdded780d7f5dc},{1198,0xe48591ef6715f},{1198,0xe9ee2d6c6e69b},{1198,0xeebabe0957af3},{1198,0xf53e1dbe84014},
{1199,0x405c84ccf4aa},{1199,0x848db3cc3dd7},{1199,0xc52fe6dc6a1b},{1199,0x14a0348ebdf8c},{1199,0x1c57338da1ff0},{1199,0x253aa0d0aca6e},{1199,0x28e55df4c49f4},{1199,0x2a40695e89ddf},{1199,0x2c5b68ad7d5c5},{1199,0x3454ffc6e4825},{1199,0x36b8b3c1648bf},{1199,0x38d2d0ed2cc42},{1199,0x4ebcaf75815a3},{1199,0x51f9fca8a414d},{1199,0x56cf76605854f},{1199,0x5c68080d0f744},{1199,0x6061245105274},{1199,0x7b72b184edec1},{1199,0x8c6d48db25cc2},{1199,0x9147b9330eaae},{1199,0x9c68582173416},{1199,0x9d58c5133dd20},{1199,0xa1c0ccbf2ac0d},{1199,0xa719415ce2404},{1199,0xac7d11ac5846d},{1199,0xaf802a8e0c2dd},{1199,0xb8796d6546711},{1199,0xbe12921caf140},{1199,0xd39a15b74f102},{1199,0xd6d189d9ad502},{1199,0xe48591ef6715f},{1199,0xe67968e1538de},{1199,0xe9ee2d6c6e69b},{1199,0xf6fc13315bd07},
{1200,0xb46c6cdd6e3e},{1200,0xc52fe6dc6a1b},{1200,0x18a3ea5821a27},{1200,0x1c57338da1ff0},{1200,0x253aa0d0aca6e},{1200,0x28e55df4c49f4},{1200,0x335e316cb71fa},{1200,0x38d2d0ed2cc42},{1200,0x4e1878814c9cd},{1200,0x56cf76605854f},{1200,0x5c68080d0f744},{1200,0x6717746f2c93e},{1200,0x68d2bf95e21a0},{1200,0x772cb91b03d40},{1200,0x7b72b184edec1},{1200,0x7f00a89ed6f2e},{1200,0x90ea2a34c255d},{1200,0x9147b9330eaae},{1200,0x948fcb2ce7c85},{1200,0xa1c0ccbf2ac0d},{1200,0xa681c00c7c273},{1200,0xa719415ce2404},{1200,0xaae9193c42218},{1200,0xaf802a8e0c2dd},{1200,0xb8796d6546711},{1200,0xbe12921caf140},{1200,0xc609c18e4ac09},{1200,0xd5f6be914b4b5},{1200,0xd6d189d9ad502},{1200,0xe9ee2d6c6e69b},{1200,0xeebabe0957af3},{1200,0xf09b780be8da2},
{1201,0x86aa122990a7},{1201,0x9eb5556a2148},{1201,0xc52fe6dc6a1b},{1201,0x1c57338da1ff0},{1201,0x2bcf72aae533b},{1201,0x3b2f03d1c1654},{1201,0x4392e7f772ad0},{1201,0x4e1878814c9cd},{1201,0x507164cd57350},{1201,0x51233c2076fc9},{1201,0x5627647af34ee},{1201,0x6717746f2c93e},{1201,0x696e945cfcc1c},{1201,0x6e6f5342a65ba},{1201,0x7b72b184edec1},{1201,0x83f55eeaf91a3},{1201,0xa1c0ccbf2ac0d},{1201,0xa681c00c7c273},{1201,0xaae9193c42218},{1201,0xaed310fe2bb0f},{1201,0xaf802a8e0c2dd},{1201,0xb10f33da67839},{1201,0xb8796d6546711},{1201,0xc609c18e4ac09},{1201,0xd3bbdbe8380ec},{1201,0xd5f6be914b4b5},{1201,0xdfac8e70cdf56},{1201,0xeebabe0957af3},{1201,0xf39920dbd6e9f},
{1202,0x39a10eaca021},{1202,0xc52fe6dc6a1b},{1202,0xfe7cf550af2c},{1202,0x1c57338da1ff0},{1202,0x3f866137dbf71},{1202,0x42e2e3f54f606},{1202,0x4e1878814c9cd},{1202,0x51233c2076fc9},{1202,0x531838016bc44},{1202,0x596a5f3d21647},{1202,0x7b72b184edec1},{1202,0x84ce54c2deb6d},{1202,0x9fe9cd927ad45},{1202,0xa681c00c7c273},{1202,0xaae9193c42218},{1202,0xaf802a8e0c2dd},{1202,0xb0ab718750ae2},{1202,0xb8796d6546711},{1202,0xbf55bb4e33f38},{1202,0xd3bbdbe8380ec},{1202,0xd6f97c34a280d},{1202,0xebe3e5f45ffec},{1202,0xeebabe0957af3},{1202,0xf39920dbd6e9f},{1202,0xf3af147228ab8},{1202,0xf696c9abc4f9c},
{1203,0x216be5ec380d},{1203,0x2577b2c06a34},{1203,0x76f32fc7b004},{1203,0xc52fe6dc6a1b},{1203,0x2b07ee04b788d},{1203,0x2eed85439bdf3},{1203,0x2f9d0bc178afb},{1203,0x3288ccae0a96e},{1203,0x3f866137dbf71},{1203,0x42e2e3f54f606},{1203,0x4e1878814c9cd},{1203,0x51233c2076fc9},{1203,0x6af8c871aad9b},{1203,0x6e0b90ef8f863},{1203,0x7ff60fa4cec5d},{1203,0x84ce54c2deb6d},{1203,0x8abe8fe493a13},{1203,0x9ea3e1141293f},{1203,0x9feefd14e755e},{1203,0xa384173c8e176},{1203,0xa681c00c7c273},{1203,0xaae9193c42218},{1203,0xb0ab718750ae2},{1203,0xc0dd518af7b8d},{1203,0xcd0d707429889},{1203,0xd3bbdbe8380ec},{1203,0xdc16121ea6c5e},{1203,0xebe3e5f45ffec},{1203,0xec97c1d462a32},{1203,0xf195d3ef5e60d},{1203,0xf34b521f11d61},{1203,0xf39920dbd6e9f},{1203,0xf3af147228ab8},{1203,0xf696c9abc4f9c},{1203,0xf6d059333c431},{1203,0xf9b4da30b27ad},
{1204,0x216be5ec380d},{1204,0x76f32fc7b004},{1204,0xa4da13579350},{1204,0xc52fe6dc6a1b},{1204,0x1cd1057358fe0},{1204,0x29bd5ba63ecfe},{1204,0x2eed85439bdf3},{1204,0x2f9d0bc178afb},{1204,0x3f866137dbf71},{1204,0x4e1878814c9cd},{1204,0x51233c2076fc9},{1204,0x5672aeb7bb53f},{1204,0x5c1d5847d1c83},{1204,0x6522788e37cc2},{1204,0x7ae79da58109a},{1204,0x872475046ee0d},{1204,0x89fac4c631be9},{1204,0xb0ab718750ae2},{1204,0xb365c1ccf0843},{1204,0xb9c7984052d7e},{1204,0xc0dd518af7b8d},{1204,0xcd0d707429889},{1204,0xd24ef9b67a4e3},{1204,0xdc16121ea6c5e},{1204,0xe05348a800394},{1204,0xeebabe0957af3},{1204,0xf34b521f11d61},{1204,0xf39920dbd6e9f},{1204,0xf3af147228ab8},{1204,0xf524b4c1f2eb4},{1204,0xf6d059333c431},{1204,0xf9b4da30b27ad},{1204,0xfee3ffccbc50d},
{1205,0x216be5ec380d},{1205,0xc52fe6dc6a1b},{1205,0x1b719109262f5},{1205,0x29bd5ba63ecfe},{1205,0x308b4d249779d},{1205,0x35dc57a56212e},{1205,0x3f866137dbf71},{1205,0x4e1878814c9cd},{1205,0x51233c2076fc9},{1205,0x5245939c83f86},{1205,0x5c1d5847d1c83},{1205,0x5d7c895e64f19},{1205,0x6522788e37cc2},{1205,0x6cb03770f8152},{1205,0x78f1e51d8f749},{1205,0x79fabe04f2a63},{1205,0x7ae79da58109a},{1205,0x7c738bc8ffe1f},{1205,0x8e7d54e964c08},{1205,0x91b91aeb78a56},{1205,0xb0ab718750ae2},{1205,0xb7d8314491b4e},{1205,0xc9ab50574490d},{1205,0xcb61a5b1c957a},{1205,0xcd0d707429889},{1205,0xd24ef9b67a4e3},{1205,0xdc16121ea6c5e},{1205,0xe05348a800394},{1205,0xeebabe0957af3},{1205,0xf39920dbd6e9f},{1205,0xf5a1e0119ad6b},{1205,0xf9b4da30b27ad},{1205,0xfee3ffccbc50d},
{1206,0x216be5ec380d},{1206,0x108d5d557553c},{1206,0x11e3deaeb7d1d},{1206,0x129524fe0e7f5},{1206,0x197bd881349a4},{1206,0x29bd5ba63ecfe},{1206,0x35dc57a56212e},{1206,0x3808d72e39b87},{1206,0x3f866137dbf71},{1206,0x42ed59f7084c1},{1206,0x4e1878814c9cd},{1206,0x5d7c895e64f19},{1206,0x6cb03770f8152},{1206,0x716e2b85f7d0f},{1206,0x78f1e51d8f749},{1206,0x82be7fc5475de},{1206,0x8e7d54e964c08},{1206,0x91b91aeb78a56},{1206,0x972dd2dd955f2},{1206,0xa9a7c7afb5ac4},{1206,0xb2040a50f979c},{1206,0xb7d8314491b4e},{1206,0xcd0d707429889},{1206,0xd867f1b9ea4ee},{1206,0xdc16121ea6c5e},{1206,0xe0432d39de217},{1206,0xeaeebe00af68d},{1206,0xf39920dbd6e9f},{1206,0xfb92d5e7a7206},
{1207,0x4117c040bde0},{1207,0xfaf3dd97cb0f},{1207,0x108d5d557553c},{1207,0x253acb830bcdf},{1207,0x29bd5ba63ecfe},{1207,0x35dc57a56212e},{1207,0x3808d72e39b87},{1207,0x3936f0f937d30},{1207,0x3bc79c330ad7c},{1207,0x4e1878814c9cd},{1207,0x5efb3f7e12949},{1207,0x6b397bf8bb884},{1207,0x78f1e51d8f749},{1207,0x82be7fc5475de},{1207,0x8e7d54e964c08},{1207,0x9247b2aa9b5af},{1207,0x972dd2dd955f2},{1207,0x98d40c002ffda},{1207,0xa32ac316fb3ab},{1207,0xa867e2add9b8d},{1207,0xb2040a50f979c},{1207,0xb9a1f27e1e128},{1207,0xcd0d707429889},{1207,0xd867f1b9ea4ee},{1207,0xe0432d39de217},{1207,0xfb9074d564d4d},{1207,0xfb92d5e7a7206},
{1208,0x4117c040bde0},{1208,0x5031e2503da8},{1208,0x636a63eaa16a},{1208,0x108d5d557553c},{1208,0x1810e9d1306c4},{1208,0x29bd5ba63ecfe},{1208,0x33fe8f1732a09},{1208,0x3808d72e39b87},{1208,0x3936f0f937d30},{1208,0x3bc79c330ad7c},{1208,0x40ae4320143f8},{1208,0x638788a066b85},{1208,0x6de0b2fb9c24d},{1208,0x7a652f63dd95b},{1208,0x82be7fc5475de},{1208,0x82f03b8e902ab},{1208,0x8b37bf5725750},{1208,0x8e7d54e964c08},{1208,0x9247b2aa9b5af},{1208,0x960457f91e0e9},{1208,0x972dd2dd955f2},{1208,0x98d40c002ffda},{1208,0xa32ac316fb3ab},{1208,0xa3c69e17e0ed1},{1208,0xa867e2add9b8d},{1208,0xb2040a50f979c},{1208,0xb9a1f27e1e128},{1208,0xbf58788144080},{1208,0xc4cebc6a7a7c4},{1208,0xd867f1b9ea4ee},{1208,0xe512d88070421},{1208,0xf62761a656ceb},{1208,0xfb9074d564d4d},
{1209,0x4117c040bde0},{1209,0x5031e2503da8},{1209,0x636a63eaa16a},{1209,0x108d5d557553c},{1209,0x1810e9d1306c4},{1209,0x254efe16241be},{1209,0x35a71ef5ec9b2},{1209,0x3808d72e39b87},{1209,0x40ae4320143f8},{1209,0x54b0b4aad2a8b},{1209,0x61b66172adceb},{1209,0x82be7fc5475de},{1209,0x82f03b8e902ab},{1209,0x8ff25ea64acf5},{1209,0x960457f91e0e9},{1209,0x972dd2dd955f2},{1209,0x98d40c002ffda},{1209,0xa32ac316fb3ab},{1209,0xa3c69e17e0ed1},{1209,0xa867e2add9b8d},{1209,0xb188e436a3cb9},{1209,0xb2040a50f979c},{1209,0xbf58788144080},{1209,0xc4cebc6a7a7c4},{1209,0xcdb2c37b55f0c},{1209,0xd1fc2bc19f46d},{1209,0xd415b5fba8244},{1209,0xdcf763558d529},{1209,0xe5d6dabd140b7},{1209,0xe8d8fccf9183d},{1209,0xed5021eeeb1f9},{1209,0xedd24e37130b2},{1209,0xf62761a656ceb},{1209,0xfb9074d564d4d},{1209,0xffb8e28a922fd},
{1210,0x277e139d8f75},{1210,0x4117c040bde0},{1210,0x5031e2503da8},{1210,0x636a63eaa16a},{1210,0x108d5d557553c},{1210,0x1810e9d1306c4},{1210,0x254efe16241be},{1210,0x329f090023fe3},{1210,0x35a71ef5ec9b2},{1210,0x3808d72e39b87},{1210,0x3a850971b91fa},{1210,0x54b0b4aad2a8b},{1210,0x61b66172adceb},{1210,0x68e21fbfb0e76},{1210,0x6d99cd229a799},{1210,0x6e3cb6defb167},{1210,0x76c2605581532},{1210,0x7a7fcbbb98519},{1210,0x82be7fc5475de},{1210,0x8784ad3785c7c},{1210,0x972dd2dd955f2},{1210,0x98d40c002ffda},{1210,0xa32ac316fb3ab},{1210,0xa3c69e17e0ed1},{1210,0xa867e2add9b8d},{1210,0xb5e49c2f10d74},{1210,0xbae5b7aadea81},{1210,0xc4cebc6a7a7c4},{1210,0xd30d5a9aa01fd},{1210,0xd849f53e66ef3},{1210,0xd8bbb90b5bfbd},{1210,0xdcf763558d529},{1210,0xe0917906fc398},{1210,0xe8d8fccf9183d},{1210,0xf120809826ce2},{1210,0xf1a4d18323ccc},{1210,0xfb9074d564d4d},{1210,0xff090f003bfd0},
{1211,0x5031e2503da8},{1211,0x636a63eaa16a},{1211,0x96c1323560d1},{1211,0x108d5d557553c},{1211,0x1810e9d1306c4},{1211,0x329f090023fe3},{1211,0x3679cde1de62b},{1211,0x4643e5ae44d12},{1211,0x52d152286a190},{1211,0x54b0b4aad2a8b},{1211,0x68d96e27a73f6},{1211,0x68e21fbfb0e76},{1211,0x6d99cd229a799},{1211,0x6e3cb6defb167},{1211,0x7a7fcbbb98519},{1211,0x82be7fc5475de},{1211,0x8862481ccada2},{1211,0x972dd2dd955f2},{1211,0xa32ac316fb3ab},{1211,0xa3c69e17e0ed1},{1211,0xa867e2add9b8d},{1211,0xb08f0094136b0},{1211,0xb5e49c2f10d74},{1211,0xb72be61c11c5f},{1211,0xbdf33e112b9b4},{1211,0xbf4b2a5566aa1},{1211,0xd30d5a9aa01fd},{1211,0xd8bbb90b5bfbd},{1211,0xe0917906fc398},{1211,0xe8d8fccf9183d},{1211,0xf38434058c5c6},{1211,0xfb9074d564d4d},{1211,0xff090f003bfd0},
{1212,0x5031e2503da8},{1212,0x26c18eb632478},{1212,0x3679cde1de62b},{1212,0x54b0b4aad2a8b},{1212,0x68d96e27a73f6},{1212,0x6d99cd229a799},{1212,0x6e3cb6defb167},{1212,0x8003a0829e4f4},{1212,0x829fda9f7309d},{1212,0x8862481ccada2},{1212,0x9ce57b087f7dd},{1212,0xa0a508bccd9b2},{1212,0xa32ac316fb3ab},{1212,0xa3c69e17e0ed1},{1212,0xb72be61c11c5f},{1212,0xbdf33e112b9b4},{1212,0xbefbbd38fcffd},{1212,0xc5823793837ee},{1212,0xd30d5a9aa01fd},{1212,0xdc613e0690aa5},{1212,0xe0917906fc398},{1212,0xe2e6207a862de},{1212,0xe8d8fccf9183d},{1212,0xf38434058c5c6},{1212,0xff090f003bfd0},
{1213,0x20e980291d8c},{1213,0x27be6129a6c3},{1213,0x167c1a7a6e2f1},{1213,0x248d91bd4916a},{1213,0x2ffa354c1ef47},{1213,0x469f3d67f7c12},{1213,0x51af3bccb02f8},{1213,0x54b0b4aad2a8b},{1213,0x580cce42d3c76},{1213,0x581a1c6eb1255},{1213,0x68b0e912a66b9},{1213,0x6d99cd229a799},{1213,0x746e875522c75},{1213,0x76d2d9fef8145},{1213,0x8003a0829e4f4},{1213,0x8ac294bd55161},{1213,0x9ce57b087f7dd},{1213,0xa32ac316fb3ab},{1213,0xa3c69e17e0ed1},{1213,0xab3964f915feb},{1213,0xae1852aef313f},{1213,0xb72be61c11c5f},{1213,0xb87542de7680c},{1213,0xbdf33e112b9b4},{1213,0xc0d474cfd7837},{1213,0xc5823793837ee},{1213,0xd30d5a9aa01fd},{1213,0xd915a6a316fc1},{1213,0xe0917906fc398},{1213,0xe8d8fccf9183d},{1213,0xf38434058c5c6},{1213,0xf65debb2ec231},{1213,0xff090f003bfd0},
{1214,0x20e980291d8c},{1214,0x153dc24405d9c},{1214,0x167c1a7a6e2f1},{1214,0x1b3cb3bb82a6e},{1214,0x288913a29735c},{1214,0x2ffa354c1ef47},{1214,0x370702f1f65ff},{1214,0x446b406f0e904},{1214,0x4643e5ae44d12},{1214,0x47a61421d85e7},{1214,0x4eca01375cb70},{1214,0x50562de774d93},{1214,0x51af3bccb02f8},{1214,0x54b0b4aad2a8b},{1214,0x580cce42d3c76},{1214,0x5ebc3081bd2da},{1214,0x6d99cd229a799},{1214,0x746e875522c75},{1214,0x7a0e65ffaae32},{1214,0x8ac294bd55161},{1214,0x8b98b9b019d73},{1214,0x8c69990dd83c2},{1214,0x96ff600d84ed2},{1214,0x97d4df19d6057},{1214,0xa32ac316fb3ab},{1214,0xa3c69e17e0ed1},{1214,0xa57ee6dbb948e},{1214,0xab3964f915feb},{1214,0xac76b7dd7d67d},{1214,0xae1852aef313f},{1214,0xb08f0094136b0},{1214,0xb72be61c11c5f},{1214,0xb87542de7680c},{1214,0xc0d474cfd7837},{1214,0xe0917906fc398},{1214,0xf38434058c5c6},{1214,0xf65debb2ec231},
{1215,0x20149d6b47ad},{1215,0x20e980291d8c},{1215,0xe59605c8c22e},{1215,0x1d7b68f87c370},{1215,0x1f6b2dbaf45fd},{1215,0x288913a29735c},{1215,0x446b406f0e904},{1215,0x4eca01375cb70},{1215,0x57ca476780f1b},{1215,0x580cce42d3c76},{1215,0x6d99cd229a799},{1215,0x6fb9a4b413df6},{1215,0x7a0e65ffaae32},{1215,0x7a7d208190fda},{1215,0x8ac294bd55161},{1215,0x8b98b9b019d73},{1215,0x8c69990dd83c2},{1215,0x96ff600d84ed2},{1215,0x97d4df19d6057},{1215,0xa3c69e17e0ed1},{1215,0xa57ee6dbb948e},{1215,0xa5cb84c6964cc},{1215,0xae1852aef313f},{1215,0xb566398407753},{1215,0xb72be61c11c5f},{1215,0xc0d474cfd7837},{1215,0xdf33b957f5133},{1215,0xf65debb2ec231},{1215,0xf7370e484d00f},{1215,0xfcdd171e03014},
{1216,0x20149d6b47ad},{1216,0x20e980291d8c},{1216,0x10e5b561379c6},{1216,0x1f6b2dbaf45fd},{1216,0x269df5cf3ecf4},{1216,0x31dfa75360841},{1216,0x37fdba083e9b3},{1216,0x4293e7c8b1fab},{1216,0x567da51ee2c54},{1216,0x57ca476780f1b},{1216,0x580cce42d3c76},{1216,0x5fc439d80e117},{1216,0x6d99cd229a799},{1216,0x7a0e65ffaae32},{1216,0x8ac294bd55161},{1216,0x8b98b9b019d73},{1216,0x96ff600d84ed2},{1216,0x98470cc1f5b16},{1216,0xa5cb84c6964cc},{1216,0xac391d74ba528},{1216,0xae1852aef313f},{1216,0xb566398407753},{1216,0xdf33b957f5133},{1216,0xee9da2751335e},{1216,0xf65debb2ec231},{1216,0xf7370e484d00f},
{1217,0x20149d6b47ad},{1217,0x20e980291d8c},{1217,0x34dec1f52a74},{1217,0xe59605c8c22e},{1217,0x1794cca891036},{1217,0x269df5cf3ecf4},{1217,0x29625065cd599},{1217,0x2ce5c89f1ab64},{1217,0x2d5be7fa3b8cc},{1217,0x31dfa75360841},{1217,0x37fdba083e9b3},{1217,0x446b406f0e904},{1217,0x457a0db0713fc},{1217,0x497f4e48b508e},{1217,0x567da51ee2c54},{1217,0x5f7430784fc6f},{1217,0x5fc439d80e117},{1217,0x61cb39dc2c393},{1217,0x64da43369b44c},{1217,0x69fb2760275fd},{1217,0x6d99cd229a799},{1217,0x78561d3bd2875},{1217,0x7a0e65ffaae32},{1217,0x812574fc84000},{1217,0x8b98b9b019d73},{1217,0x922c8bb5e0962},{1217,0x96ff600d84ed2},{1217,0x97d4df19d6057},{1217,0xae1852aef313f},{1217,0xb02c898989c17},{1217,0xb0db7701c01cc},{1217,0xb566398407753},{1217,0xbd7253f309ef0},{1217,0xcd05d12d12b31},{1217,0xdf33b957f5133},{1217,0xf65debb2ec231},{1217,0xfdca16e04b86d},
{1218,0xd4e857eb878},{1218,0x20149d6b47ad},{1218,0x34dec1f52a74},{1218,0x8879c19d05b0},{1218,0xe303a3450fd3},{1218,0xe59605c8c22e},{1218,0x1bddd8612cbe3},{1218,0x29625065cd599},{1218,0x2a58234374d66},{1218,0x2ce5c89f1ab64},{1218,0x31dfa75360841},{1218,0x36e6c86a6df4e},{1218,0x37d0cd75b2656},{1218,0x446b406f0e904},{1218,0x51efb873af2b9},{1218,0x5f7430784fc6f},{1218,0x5fc439d80e117},{1218,0x64da43369b44c},{1218,0x6d99cd229a799},{1218,0x6f3245c8a749b},{1218,0x76b1f9c623083},{1218,0x78561d3bd2875},{1218,0x812574fc84000},{1218,0x8b98b9b019d73},{1218,0x96ff600d84ed2},{1218,0x97d4df19d6057},{1218,0xa07f799a10a63},{1218,0xaaf2d98f0c0db},{1218,0xae1852aef313f},{1218,0xaea2be4ee4868},{1218,0xb02c898989c17},{1218,0xb566398407753},{1218,0xc3abd580cf9c8},{1218,0xca4cf96dfe443},{1218,0xcacf7afd10c62},{1218,0xcba80de118d73},{1218,0xcd05d12d12b31},{1218,0xd92c85e5b9729},{1218,0xd9c4660951d07},{1218,0xdc421fde47b19},{1218,0xdf33b957f5133},{1218,0xe6b0fdea5a0de},{1218,0xee90544935d7f},{1218,0xf41a7941ebe23},{1218,0xf43575eefaa94},{1218,0xf4c67d50e08b0},
{1219,0xd4e857eb878},{1219,0x20149d6b47ad},{1219,0x34dec1f52a74},{1219,0x79f32fc1deff},{1219,0xe303a3450fd3},{1219,0x1523ab00be8b5},{1219,0x1819da5f36aec},{1219,0x2a58234374d66},{1219,0x2b2fe188d46e1},{1219,0x2ce5c89f1ab64},{1219,0x2fc1cd426a0ce},{1219,0x31dfa75360841},{1219,0x3645a3c4c3dd9},{1219,0x51efb873af2b9},{1219,0x55becc1ffc6b3},{1219,0x5fc439d80e117},{1219,0x64da43369b44c},{1219,0x6d99cd229a799},{1219,0x76b1f9c623083},{1219,0x7848cf0ff5296},{1219,0x78561d3bd2875},{1219,0x960c19a5153eb},{1219,0x97d4df19d6057},{1219,0xa07f799a10a63},{1219,0xa4edf68071159},{1219,0xaaf2d98f0c0db},{1219,0xae1852aef313f},{1219,0xaea2be4ee4868},{1219,0xb02c898989c17},{1219,0xb566398407753},{1219,0xbfd9997902dcb},{1219,0xca4cf96dfe443},{1219,0xcd05d12d12b31},{1219,0xd0a3f06ecdf45},{1219,0xd91c68a1f53d0},{1219,0xdc421fde47b19},{1219,0xdf33b957f5133},{1219,0xe6b0fdea5a0de},{1219,0xee90544935d7f},{1219,0xf2a5228eb7622},{1219,0xf43575eefaa94},
{1220,0x34dec1f52a74},{1220,0x92eaf68eb004},{1220,0xe303a3450fd3},{1220,0xe59605c8c22e},{1220,0x1a9b8f15d88f9},{1220,0x227fd17f28b28},{1220,0x27545e8cae200},{1220,0x27b2cd0f21b46},{1220,0x2a58234374d66},{1220,0x2b2fe188d46e1},{1220,0x2ce5c89f1ab64},{1220,0x2fc1cd426a0ce},{1220,0x3645a3c4c3dd9},{1220,0x427119fd3a02b},{1220,0x51efb873af2b9},{1220,0x5fc439d80e117},{1220,0x64da43369b44c},{1220,0x6b49935ec6ccc},{1220,0x6d99cd229a799},{1220,0x76b1f9c623083},{1220,0x7e57912838a51},{1220,0x8943e1d185c79},{1220,0x9586108ad2345},{1220,0x983415236e02e},{1220,0x9dfa52486262f},{1220,0xa07f799a10a63},{1220,0xa5b929948e59f},{1220,0xa609527baabb7},{1220,0xaa10d2954ee7b},{1220,0xaaf2d98f0c0db},{1220,0xb02c898989c17},{1220,0xb566398407753},{1220,0xba9fe97e8528f},{1220,0xbfd9997902dcb},{1220,0xcd05d12d12b31},{1220,0xcda02bb8073df},{1220,0xd0a3f06ecdf45},{1220,0xd91c68a1f53d0},{1220,0xdf33b957f5133},{1220,0xe82fa05f96b8c},{1220,0xee90544935d7f},{1220,0xf10b6fe77cd6a},{1220,0xf2a5228eb7622},{1220,0xfdca16e04b86d},
{1221,0x34dec1f52a74},{1221,0xe59605c8c22e},{1221,0x27545e8cae200},{1221,0x27b2cd0f21b46},{1221,0x2a58234374d66},{1221,0x2fc1cd426a0ce},{1221,0x3645a3c4c3dd9},{1221,0x374bbfbf0cba0},{1221,0x3e9e4e4c2f344},{1221,0x441aae1c39849},{1221,0x51efb873af2b9},{1221,0x5c9189e1ae857},{1221,0x5fc439d80e117},{1221,0x5fc4c2cb24d29},{1221,0x64da43369b44c},{1221,0x6d99cd229a799},{1221,0x76b1f9c623083},{1221,0x7de9e8fbd1313},{1221,0x8943e1d185c79},{1221,0x90d269aa978af},{1221,0x9586108ad2345},{1221,0x96b232c80aa7b},{1221,0x983415236e02e},{1221,0x9dfa52486262f},{1221,0xa8560191cd33d},{1221,0xaa10d2954ee7b},{1221,0xaaf2d98f0c0db},{1221,0xad8fb18c4ae79},{1221,0xb02c898989c17},{1221,0xb2c96186c89b5},{1221,0xb566398407753},{1221,0xb8031181464f1},{1221,0xbe10d4044215f},{1221,0xc513497380907},{1221,0xd0a3f06ecdf45},{1221,0xd91c68a1f53d0},{1221,0xdf33b957f5133},{1221,0xe42a5d2943d43},{1221,0xe82fa05f96b8c},{1221,0xe95d58b93cd61},{1221,0xee90544935d7f},{1221,0xf10b6fe77cd6a},{1221,0xf2a5228eb7622},{1221,0xf954293c6995f},{1221,0xfdca16e04b86d},
{1222,0x34dec1f52a74},{1222,0xe59605c8c22e},{1222,0x1d4cd5ef2fb0a},{1222,0x1d9879ac1b731},{1222,0x1ec1acde2a7bd},{1222,0x27b2cd0f21b46},{1222,0x2850aa18c57ff},{1222,0x2a58234374d66},{1222,0x2b1cf1b0bc0e7},{1222,0x2fc1cd426a0ce},{1222,0x374bbfbf0cba0},{1222,0x38a169b55ca9c},{1222,0x441aae1c39849},{1222,0x4625e1b9fd452},{1222,0x4b053347f4581},{1222,0x51efb873af2b9},{1222,0x53aa59be9de07},{1222,0x5564fb098c955},{1222,0x58da3d9f69ff1},{1222,0x5fc439d80e117},{1222,0x5fc4c2cb24d29},{1222,0x8943e1d185c79},{1222,0x90d269aa978af},{1222,0x96b232c80aa7b},{1222,0x983415236e02e},{1222,0x98fb5320af9e1},{1222,0x9de2a19cd1cc5},{1222,0xaa10d2954ee7b},{1222,0xaaf2d98f0c0db},{1222,0xac41458dab7aa},{1222,0xad8fb18c4ae79},{1222,0xaede1d8aea548},{1222,0xb02c898989c17},{1222,0xb17af588292e6},{1222,0xb21fd2c897403},{1222,0xb2c96186c89b5},{1222,0xb417cd8568084},{1222,0xb8031181464f1},{1222,0xbe10d4044215f},{1222,0xc513497380907},{1222,0xce6d1586d20a9},{1222,0xd0a3f06ecdf45},{1222,0xd2238165bad1d},{1222,0xdc91ab37d2a6c},{1222,0xdded757246ce6},{1222,0xe42a5d2943d43},{1222,0xe82fa05f96b8c},{1222,0xebf6d68139570},{1222,0xee90544935d7f},{1222,0xf2a5228eb7622},{1222,0xfa00f4284c55e},{1222,0xfe2946f920dd9},
{1223,0x34dec1f52a74},{1223,0xee126cb768b4},{1223,0x101401a77ad7c},{1223,0x1ec1acde2a7bd},{1223,0x2186144193631},{1223,0x27b2cd0f21b46},{1223,0x2850aa18c57ff},{1223,0x2a4c4ad71e355},{1223,0x2a58234374d66},{1223,0x2eddca559ee7f},{1223,0x2fc1cd426a0ce},{1223,0x31c58d4f3c230},{1223,0x38a169b55ca9c},{1223,0x441aae1c39849},{1223,0x4625e1b9fd452},{1223,0x4b053347f4581},{1223,0x4e7a75ddd1c1d},{1223,0x51efb873af2b9},{1223,0x53aa59be9de07},{1223,0x548ce54252cfa},{1223,0x5564fb098c955},{1223,0x58da3d9f69ff1},{1223,0x5c4f80354768d},{1223,0x66af47f6dfa61},{1223,0x69a1c1d3e8c6d},{1223,0x6e6940713648e},{1223,0x8545ba956624f},{1223,0x85487d2ea3d62},{1223,0x8943e1d185c79},{1223,0x89d4d1c82d85b},{1223,0x9740b1d5c0e93},{1223,0x9de2a19cd1cc5},{1223,0xa46abd95eeed0},{1223,0xa46db10409cd4},{1223,0xa80d12887cd19},{1223,0xaa10d2954ee7b},{1223,0xaaf2d98f0c0db},{1223,0xabd87bac2be91},{1223,0xaede1d8aea548},{1223,0xb02c898989c17},{1223,0xb17af588292e6},{1223,0xb8031181464f1},{1223,0xbe8b2d7a636fc},{1223,0xc513497380907},{1223,0xce2fe28dbab10},{1223,0xd0a3f06ecdf45},{1223,0xdad709ece3f1e},{1223,0xdbb45a925b4c5},{1223,0xdc91ab37d2a6c},{1223,0xe42a5d2943d43},{1223,0xe82fa05f96b8c},{1223,0xe938d296fbe7b},{1223,0xec43f14a2f549},{1223,0xf129d2113258e},
{1224,0x34dec1f52a74},{1224,0x580c69c20866},{1224,0xee126cb768b4},{1224,0x101401a77ad7c},{1224,0x27b2cd0f21b46},{1224,0x2a4c4ad71e355},{1224,0x2a58234374d66},{1224,0x31c58d4f3c230},{1224,0x32d0612ee673d},{1224,0x3e9e4e4c2f344},{1224,0x441aae1c39849},{1224,0x444b34a6fb3eb},{1224,0x48f935f657236},{1224,0x50351728c076b},{1224,0x51efb873af2b9},{1224,0x53aa59be9de07},{1224,0x5564fb098c955},{1224,0x571f9c547b4a3},{1224,0x66af47f6dfa61},{1224,0x6762ea23bf51d},{1224,0x69a1c1d3e8c6d},{1224,0x6e6940713648e},{1224,0x77f994e432b6d},{1224,0x873b54003104c},{1224,0x8943e1d185c79},{1224,0x8a4a4db17a6a4},{1224,0x8e45e1df3b015},{1224,0x981e027b3843a},{1224,0xa46db10409cd4},{1224,0xa62b5af1be8ba},{1224,0xa80d12887cd19},{1224,0xaaf2d98f0c0db},{1224,0xb02c898989c17},{1224,0xb17af588292e6},{1224,0xb8031181464f1},{1224,0xbc329308b1aed},{1224,0xcb9b656c9db12},{1224,0xd0a3f06ecdf45},{1224,0xdbb45a925b4c5},{1224,0xdded757246ce6},{1224,0xe6b7653b8ccf9},{1224,0xec43f14a2f549},{1224,0xf129d2113258e},
{1225,0x580c69c20866},{1225,0xfa55954bf2a8},{1225,0x1b1ac2ac1255a},{1225,0x27b2cd0f21b46},{1225,0x2a4c4ad71e355},{1225,0x2a58234374d66},{1225,0x32d0612ee673d},{1225,0x441aae1c39849},{1225,0x444b34a6fb3eb},{1225,0x4cbfd492e30cf},{1225,0x51efb873af2b9},{1225,0x52cd091926860},{1225,0x53aa59be9de07},{1225,0x5487aa64153ae},{1225,0x5564fb098c955},{1225,0x59a76be7c02c4},{1225,0x5e0a2180361db},{1225,0x66af47f6dfa61},{1225,0x7a3bdf1842801},{1225,0x8943e1d185c79},{1225,0x8a4a4db17a6a4},{1225,0x8e45e1df3b015},{1225,0x97af5a287c966},{1225,0xa303b2686f9a4},{1225,0xa46db10409cd4},{1225,0xaaf2d98f0c0db},{1225,0xb02c898989c17},{1225,0xb17af588292e6},{1225,0xbc329308b1aed},{1225,0xcb9b656c9db12},{1225,0xdbb45a925b4c5},{1225,0xdded757246ce6},{1225,0xdfb76274251b5},{1225,0xe5b5853523c48},{1225,0xf129d2113258e},{1225,0xf9201c3679f3a},
{1226,0x2e09f9de65a7},{1226,0x796a0dd96c9f},{1226,0xe5a8a35b3fd5},{1226,0x2a58234374d66},{1226,0x32d0612ee673d},{1226,0x444b34a6fb3eb},{1226,0x486d41578e48c},{1226,0x4cbfd492e30cf},{1226,0x4e1516958900d},{1226,0x511267ce37d12},{1226,0x52883330f2278},{1226,0x52cd091926860},{1226,0x533bb16be2334},{1226,0x53aa59be9de07},{1226,0x54190211598db},{1226,0x5487aa64153ae},{1226,0x5564fb098c955},{1226,0x59b78e44e1598},{1226,0x5dbfab424d005},{1226,0x5e0a2180361db},{1226,0x5f4389df9edf6},{1226,0x75acd9f38d3b7},{1226,0x7a3bdf1842801},{1226,0x7c12f4956bf44},{1226,0x7f0a8e75e4fcc},{1226,0x8943e1d185c79},{1226,0x8a4a4db17a6a4},{1226,0x8bbd89422ff3c},{1226,0x91bc1fbcf7650},{1226,0x97af5a287c966},{1226,0x9e50e313bbe81},{1226,0xa46db10409cd4},{1226,0xaaf2d98f0c0db},{1226,0xb02c898989c17},{1226,0xb17af588292e6},{1226,0xb47da222d5717},{1226,0xb9b1da5d6bf16},{1226,0xbc329308b1aed},{1226,0xcb9b656c9db12},{1226,0xdbb45a925b4c5},{1226,0xdded757246ce6},{1226,0xe0ac2515168d3},{1226,0xe61d33fad102d},{1226,0xef33f620536e4},{1226,0xf129d2113258e},{1226,0xfdb6dac74aa75},
{1227,0x2e09f9de65a7},{1227,0x1943ce45ad18b},{1227,0x1d3381063e9ee},{1227,0x2119189c0f187},{1227,0x2952df6e579e0},{1227,0x32d0612ee673d},{1227,0x344449599b5bc},{1227,0x3f9d33579f5a0},{1227,0x444b34a6fb3eb},{1227,0x486d41578e48c},{1227,0x4ee91e308d6f1},{1227,0x511267ce37d12},{1227,0x533bb16be2334},{1227,0x53aa59be9de07},{1227,0x54190211598db},{1227,0x5564fb098c955},{1227,0x578e44a736f77},{1227,0x5e0a2180361db},{1227,0x5f4389df9edf6},{1227,0x73a701a8ddf2a},{1227,0x7a3bdf1842801},{1227,0x8943e1d185c79},{1227,0x8a4a4db17a6a4},{1227,0x8e45e1df3b015},{1227,0x91bc1fbcf7650},{1227,0x95343450e620c},{1227,0x983ad4519c7af},{1227,0x9e50e313bbe81},{1227,0xa46db10409cd4},{1227,0xa836adf8689c2},{1227,0xaaf2d98f0c0db},{1227,0xb02c898989c17},{1227,0xb17af588292e6},{1227,0xb8b9873ba9dc2},{1227,0xbc329308b1aed},{1227,0xe0ac2515168d3},{1227,0xef33f620536e4},{1227,0xf129d2113258e},{1227,0xf1d75a5709c1a},{1227,0xfd4832748efa1},{1227,0xfdb6dac74aa75},{1227,0xfe25831a06548},
{1228,0x10f76232f2d73},{1228,0x1943ce45ad18b},{1228,0x344449599b5bc},{1228,0x37971798cc0ca},{1228,0x444b34a6fb3eb},{1228,0x486d41578e48c},{1228,0x4d8db9f7c16ab},{1228,0x511267ce37d12},{1228,0x533bb16be2334},{1228,0x53aa59be9de07},{1228,0x5564fb098c955},{1228,0x5c7d25a353a12},{1228,0x5e0a2180361db},{1228,0x5f4389df9edf6},{1228,0x64f3c0848ce22},{1228,0x779f071b03a63},{1228,0x7a3bdf1842801},{1228,0x7b11148f02e93},{1228,0x8a4a4db17a6a4},{1228,0x8e45e1df3b015},{1228,0x91bc1fbcf7650},{1228,0x983ad4519c7af},{1228,0x9b14e86080992},{1228,0x9e50e313bbe81},{1228,0xa23b883eece7f},{1228,0xa8794619966d4},{1228,0xa8e7ee6c521a8},{1228,0xaaf2d98f0c0db},{1228,0xb8b9873ba9dc2},{1228,0xca1a824b7d466},{1228,0xcb24dec22d622},{1228,0xce6f5c0ee41e0},{1228,0xe0ac2515168d3},{1228,0xe2e7eeab778b3},{1228,0xef33f620536e4},{1228,0xf1d75a5709c1a},{1228,0xf661f9e850cf1},{1228,0xfcd98a21d34ce},{1228,0xfdb6dac74aa75},{1228,0xff02d3bf7daef},
{1229,0xa9b199f52244},{1229,0x10f76232f2d73},{1229,0x2942e391219a1},{1229,0x2aa14b6cf70af},{1229,0x344449599b5bc},{1229,0x3d68a1e25bf64},{1229,0x444b34a6fb3eb},{1229,0x486d41578e48c},{1229,0x533bb16be2334},{1229,0x53aa59be9de07},{1229,0x5bca58acb4806},{1229,0x5df51de0ff727},{1229,0x5e0a2180361db},{1229,0x5f4389df9edf6},{1229,0x6300348b49606},{1229,0x64f3c0848ce22},{1229,0x779f071b03a63},{1229,0x91bc1fbcf7650},{1229,0x9668840ebbff1},{1229,0x9e50e313bbe81},{1229,0xa80a9dc6dac01},{1229,0xb8b9873ba9dc2},{1229,0xbd91617e8a031},{1229,0xc0780aeea569a},{1229,0xca1a824b7d466},{1229,0xcb24dec22d622},{1229,0xce6f5c0ee41e0},{1229,0xd34f6499ce60e},{1229,0xe0ac2515168d3},{1229,0xe0d76d7ac34fc},{1229,0xe2ccc0105bcfb},{1229,0xe2e7eeab778b3},{1229,0xf20b1a0d7f626},{1229,0xf661f9e850cf1},{1229,0xfcd98a21d34ce},{1229,0xfdb6dac74aa75},{1229,0xff02d3bf7daef},
{1230,0x4139cc0a2b37},{1230,0x91f8051515ec},{1230,0xe28f1fc31e5b},{1230,0x28d43b3e65ecd},{1230,0x2aa14b6cf70af},{1230,0x344449599b5bc},{1230,0x37764009f924d},{1230,0x3d68a1e25bf64},{1230,0x444b34a6fb3eb},{1230,0x51202943fd589},{1230,0x533bb16be2334},{1230,0x5df51de0ff727},{1230,0x5e0a2180361db},{1230,0x5f4389df9edf6},{1230,0x61aa506d7e003},{1230,0x756183c147514},{1230,0x779f071b03a63},{1230,0x7da327995e79a},{1230,0x85ebfef8a00a2},{1230,0x91bc1fbcf7650},{1230,0x9e50e313bbe81},{1230,0xa80a9dc6dac01},{1230,0xa91a1555ce675},{1230,0xb3e34797e0e69},{1230,0xb8b9873ba9dc2},{1230,0xba7376fe9b0b5},{1230,0xc4ba6473ac553},{1230,0xf1d75a5709c1a},{1230,0xf20b1a0d7f626},{1230,0xf7f0953d18a8f},{1230,0xfcd98a21d34ce},
{1231,0x4139cc0a2b37},{1231,0x91f8051515ec},{1231,0xe28f1fc31e5b},{1231,0x174e7bb01498c},{1231,0x1781ba9fbb19d},{1231,0x28d43b3e65ecd},{1231,0x344449599b5bc},{1231,0x3726987666190},{1231,0x37764009f924d},{1231,0x3de0ba587a31c},{1231,0x444b34a6fb3eb},{1231,0x4ab5aef57c4ba},{1231,0x51202943fd589},{1231,0x533bb16be2334},{1231,0x5e0a2180361db},{1231,0x61aa506d7e003},{1231,0x73af35f26d9af},{1231,0x779f071b03a63},{1231,0x7da327995e79a},{1231,0x85ebfef8a00a2},{1231,0x91bc1fbcf7650},{1231,0x9828c7fed2795},{1231,0x9e50e313bbe81},{1231,0xa80a9dc6dac01},{1231,0xa91a1555ce675},{1231,0xb39c6f0c28897},{1231,0xb7c7ce2c0e279},{1231,0xd27213f457067},{1231,0xe8ba73d9ea5ab},{1231,0xf1d75a5709c1a},{1231,0xf20b1a0d7f626},{1231,0xfcd98a21d34ce},
{1232,0x4139cc0a2b37},{1232,0x990f503b3509},{1232,0x174e7bb01498c},{1232,0x1761dc8173e42},{1232,0x242f68b3cef91},{1232,0x24caf9738260c},{1232,0x28d43b3e65ecd},{1232,0x2edfb038921c2},{1232,0x33f86b312f96f},{1232,0x37764009f924d},{1232,0x3de0ba587a31c},{1232,0x3f0d7b9baddb0},{1232,0x444b34a6fb3eb},{1232,0x4a2186a06fe8e},{1232,0x4ab5aef57c4ba},{1232,0x4f35a3e608bc9},{1232,0x533bb16be2334},{1232,0x578aa3927e658},{1232,0x5e0a2180361db},{1232,0x5e5fe15eabdd6},{1232,0x61aa506d7e003},{1232,0x72026d61372bb},{1232,0x74fb76e60a574},{1232,0x779f071b03a63},{1232,0x7da327995e79a},{1232,0x85ebfef8a00a2},{1232,0x88c7578c2823c},{1232,0x91bc1fbcf7650},{1232,0x9e50e313bbe81},{1232,0xa80a9dc6dac01},{1232,0xa91a1555ce675},{1232,0xaa65910504e88},{1232,0xb32ecdb9a46a3},{1232,0xc56ce94c6c50a},{1232,0xd27213f457067},{1232,0xda884d18010bc},{1232,0xf20b1a0d7f626},{1232,0xfcd98a21d34ce},
{1233,0x4139cc0a2b37},{1233,0x15b80f6dfc4a3},{1233,0x1da82cb875d30},{1233,0x22296619b1b9b},{1233,0x24167df67f9ce},{1233,0x28d43b3e65ecd},{1233,0x33f86b312f96f},{1233,0x37764009f924d},{1233,0x444b34a6fb3eb},{1233,0x46b553491e671},{1233,0x4f35a3e608bc9},{1233,0x533bb16be2334},{1233,0x578aa3927e658},{1233,0x5e5fe15eabdd6},{1233,0x61aa506d7e003},{1233,0x6308347876613},{1233,0x64d728f1ae9d5},{1233,0x72026d61372bb},{1233,0x74fb76e60a574},{1233,0x7da327995e79a},{1233,0x85ebfef8a00a2},{1233,0x88c7578c2823c},{1233,0x91bc1fbcf7650},{1233,0x9e50e313bbe81},{1233,0xa40db439703b6},{1233,0xa80a9dc6dac01},{1233,0xa91a1555ce675},{1233,0xaa65910504e88},{1233,0xb622366a7c386},{1233,0xd27213f457067},{1233,0xd43ede5e18645},{1233,0xd7dc31b493684},{1233,0xe3285be08585a},{1233,0xe4d63066d89ad},{1233,0xe80ef41cfedb6},{1233,0xe9ae97d78e5a9},{1233,0xeb40aab559a7c},{1233,0xed0d07153f1ee},{1233,0xfcd98a21d34ce},
{1234,0x15b80f6dfc4a3},{1234,0x1b86c1adf1e0a},{1234,0x3191fcc916bbf},{1234,0x34662f1fe428e},{1234,0x3726987666190},{1234,0x37764009f924d},{1234,0x444b34a6fb3eb},{1234,0x46b553491e671},{1234,0x578aa3927e658},{1234,0x590c0e87f5da3},{1234,0x60892afc563f7},{1234,0x61aa506d7e003},{1234,0x64d728f1ae9d5},{1234,0x6d56090f7291a},{1234,0x85ebfef8a00a2},{1234,0xa3ef2b13b9ceb},{1234,0xa40db439703b6},{1234,0xa80a9dc6dac01},{1234,0xaa65910504e88},{1234,0xabcc61e653072},{1234,0xb58caeb7793f0},{1234,0xb622366a7c386},{1234,0xcff69497b7ed1},{1234,0xd43ede5e18645},{1234,0xd7dc31b493684},{1234,0xe0047a914e0fe},{1234,0xe80ef41cfedb6},{1234,0xe9ae97d78e5a9},{1234,0xeb40aab559a7c},{1234,0xef8c10915f40a},
{1235,0xdc7f22382c16},{1235,0x1041c5679955e},{1235,0x14ec457eb0cd8},{1235,0x15b80f6dfc4a3},{1235,0x1a473cefe1cfc},{1235,0x271f50d573373},{1235,0x3191fcc916bbf},{1235,0x34662f1fe428e},{1235,0x36c1772de2018},{1235,0x37764009f924d},{1235,0x3d479c2fd573c},{1235,0x60892afc563f7},{1235,0x6128ed5b5e47e},{1235,0x61c8afba66505},{1235,0x65873df49682f},{1235,0x6a0518ac2d504},{1235,0x6ba84efd94207},{1235,0x6d56090f7291a},{1235,0x718a8b027111d},{1235,0x7e5395940ae48},{1235,0x8b906388da8e5},{1235,0x90d5644124c90},{1235,0x90fedc2a81a89},{1235,0xa3ef2b13b9ceb},{1235,0xa80a9dc6dac01},{1235,0xab17e3a44f266},{1235,0xabcc61e653072},{1235,0xb58caeb7793f0},{1235,0xb5f7d9b656d4b},{1235,0xb622366a7c386},{1235,0xbfe8ae9e21ca4},{1235,0xc85541c13ea21},{1235,0xe0047a914e0fe},{1235,0xe05f4fe3d31b2},{1235,0xe80ef41cfedb6},{1235,0xeb40aab559a7c},{1235,0xee4c8bd34f2fc},{1235,0xf48a23899f842},
{1236,0x2b93a27ee63d},{1236,0xdc7f22382c16},{1236,0xe4fee0d424c2},{1236,0x15b80f6dfc4a3},{1236,0x1a473cefe1cfc},{1236,0x3191fcc916bbf},{1236,0x37764009f924d},{1236,0x59f732b2972d7},{1236,0x5f49a63e462e9},{1236,0x6128ed5b5e47e},{1236,0x65873df49682f},{1236,0x6ba84efd94207},{1236,0x7e5395940ae48},{1236,0x8b906388da8e5},{1236,0x90fedc2a81a89},{1236,0x9a4d72eecf027},{1236,0xa80a9dc6dac01},{1236,0xad9c916cffb63},{1236,0xb58caeb7793f0},{1236,0xb5f7d9b656d4b},{1236,0xbfe8ae9e21ca4},{1236,0xc17a0aac71475},{1236,0xc85541c13ea21},{1236,0xc900afede5f4c},{1236,0xd54d23e15f624},{1236,0xdb85cf373a1a0},{1236,0xe05f4fe3d31b2},{1236,0xe22bd50ba59d3},{1236,0xeb40aab559a7c},{1236,0xee4c8bd34f2fc},{1236,0xf018cbb932d61},{1236,0xf48a23899f842},
{1237,0x15b80f6dfc4a3},{1237,0x1a971e1f65d3f},{1237,0x1ae6ff4ee9d83},{1237,0x21141901d703e},{1237,0x23b42eeeffb77},{1237,0x3191fcc916bbf},{1237,0x37764009f924d},{1237,0x49d9f88e1165c},{1237,0x59f732b2972d7},{1237,0x5db872d9ba744},{1237,0x6128ed5b5e47e},{1237,0x626872196e58c},{1237,0x65873df49682f},{1237,0x6ba84efd94207},{1237,0x7c78255b35361},{1237,0x82e86d9397902},{1237,0x84f03e93ff9f4},{1237,0x89dee8ea5e2c9},{1237,0x8f938e37b8640},{1237,0xa6cb1908caaf3},{1237,0xa7babc9756bbd},{1237,0xc8893ef759ac8},{1237,0xc900afede5f4c},{1237,0xd54d23e15f624},{1237,0xd7f2d7f6f6bf7},{1237,0xe22bd50ba59d3},{1237,0xee3e58bcb5893},{1237,0xee4c8bd34f2fc},{1237,0xee9c6d02d3340},{1237,0xf018cbb932d61},{1237,0xf48a23899f842},
{1238,0x56b86b87303a},{1238,0xa880542ca728},{1238,0x15b80f6dfc4a3},{1238,0x1a971e1f65d3f},{1238,0x1ae6ff4ee9d83},{1238,0x21141901d703e},{1238,0x23b42eeeffb77},{1238,0x3191fcc916bbf},{1238,0x33bf5f984dc7f},{1238,0x3888781fdd586},{1238,0x3de005bd620df},{1238,0x49d9f88e1165c},{1238,0x4eadc02d9d92b},{1238,0x592ed1235943c},{1238,0x59f732b2972d7},{1238,0x5db872d9ba744},{1238,0x60d90c2bda43b},{1238,0x6128ed5b5e47e},{1238,0x65873df49682f},{1238,0x6ba84efd94207},{1238,0x82e86d9397902},{1238,0x8471d4f95a81e},{1238,0x89dee8ea5e2c9},{1238,0x8f938e37b8640},{1238,0xa85a7ef65ec44},{1238,0xb512af9853d2e},{1238,0xb58e46667f933},{1238,0xb6055efb01e4e},{1238,0xba7daf1b3ace9},{1238,0xc8893ef759ac8},{1238,0xc900afede5f4c},{1238,0xd207871749e34},{1238,0xd7f2d7f6f6bf7},{1238,0xeac0ed4f8c9f2},{1238,0xee4c8bd34f2fc},{1238,0xee825f771a878},{1238,0xf48a23899f842},
{1239,0x42062e46a678},{1239,0x10f8eb5e042ed},{1239,0x15b80f6dfc4a3},{1239,0x1a971e1f65d3f},{1239,0x1ae6ff4ee9d83},{1239,0x1f36578dec80f},{1239,0x3191fcc916bbf},{1239,0x33bf5f984dc7f},{1239,0x34203c0e42736},{1239,0x3de005bd620df},{1239,0x3f2013d6fac75},{1239,0x4fb3d74af0f43},{1239,0x592ed1235943c},{1239,0x59f732b2972d7},{1239,0x5db872d9ba744},{1239,0x60d90c2bda43b},{1239,0x6128ed5b5e47e},{1239,0x65873df49682f},{1239,0x6ca13aaabfa55},{1239,0x6cb6c362e4e4e},{1239,0x89dee8ea5e2c9},{1239,0x8f938e37b8640},{1239,0x9117c0889f9c4},{1239,0x9ef91803d33eb},{1239,0xa53bb31b369a1},{1239,0xb512af9853d2e},{1239,0xb58e46667f933},{1239,0xb98720fe16daf},{1239,0xba7daf1b3ace9},{1239,0xbf0af6d76975c},{1239,0xc900afede5f4c},{1239,0xcb538564d6fa0},{1239,0xcd48630751c7e},{1239,0xcd98d64ced2f0},{1239,0xdcd0089c1314e},{1239,0xe4f02841d6b13},{1239,0xeac0ed4f8c9f2},{1239,0xee4c8bd34f2fc},
{1240,0x42062e46a678},{1240,0x77aa33e13f81},{1240,0x13587d66003c8},{1240,0x15b80f6dfc4a3},{1240,0x1f36578dec80f},{1240,0x25d2c8cdf66bd},{1240,0x2c63828625f31},{1240,0x34203c0e42736},{1240,0x3de005bd620df},{1240,0x3f2013d6fac75},{1240,0x41b99b719f5e1},{1240,0x48b6b95e48292},{1240,0x48ec5773fe73d},{1240,0x4f5c88f49e28d},{1240,0x4fb3d74af0f43},{1240,0x59f732b2972d7},{1240,0x5db872d9ba744},{1240,0x65873df49682f},{1240,0x6ca13aaabfa55},{1240,0x7e2528cd4ea47},{1240,0x85617887e68e8},{1240,0x8f938e37b8640},{1240,0x9117c0889f9c4},{1240,0x9ef91803d33eb},{1240,0xa53bb31b369a1},{1240,0xad0c383b42c88},{1240,0xb270590c8be32},{1240,0xb512af9853d2e},{1240,0xb58e46667f933},{1240,0xbf0af6d76975c},{1240,0xc900afede5f4c},{1240,0xcae8d0ff55ba3},{1240,0xcb538564d6fa0},{1240,0xcce2eb526b0f2},{1240,0xcd48630751c7e},{1240,0xd029ad26d6bd5},{1240,0xd6c6ab2741fea},{1240,0xdcd0089c1314e},{1240,0xe4f02841d6b13},{1240,0xe4f527a089210},{1240,0xe62c4e38ff872},{1240,0xeac0ed4f8c9f2},{1240,0xecbd25e5bb1ab},{1240,0xee4c8bd34f2fc},
{1241,0x5516a0b6fbf0},{1241,0x645aae6f5a63},{1241,0x77aa33e13f81},{1241,0xedcd5a2a8f6c},{1241,0x13587d66003c8},{1241,0x1eddf57877658},{1241,0x2fdbb0e39fb47},{1241,0x34203c0e42736},{1241,0x3521c421c4008},{1241,0x3de005bd620df},{1241,0x3f2013d6fac75},{1241,0x45ad036146776},{1241,0x469e4759001b6},{1241,0x48b6b95e48292},{1241,0x59f732b2972d7},{1241,0x5b485df87b255},{1241,0x5db872d9ba744},{1241,0x65873df49682f},{1241,0x6ca13aaabfa55},{1241,0x70507036a9023},{1241,0x85617887e68e8},{1241,0x8f938e37b8640},{1241,0x9117c0889f9c4},{1241,0x95106fecb6f56},{1241,0x954e95d18e945},{1241,0xa53bb31b369a1},{1241,0xb270590c8be32},{1241,0xc515edae86a5a},{1241,0xcae8d0ff55ba3},{1241,0xd029ad26d6bd5},{1241,0xd411c70075077},{1241,0xd56498b1cb080},{1241,0xdcd0089c1314e},{1241,0xe16a267b25c1a},{1241,0xe4f02841d6b13},{1241,0xe58e4a37b1225},{1241,0xeac0ed4f8c9f2},{1241,0xf2ef6379dab72},
{1242,0x5516a0b6fbf0},{1242,0x5f88e3aa6604},{1242,0x77aa33e13f81},{1242,0xedcd5a2a8f6c},{1242,0x1228bdb34bcac},{1242,0x13587d66003c8},{1242,0x1eddf57877658},{1242,0x2048ad05eac58},{1242,0x21e25fedb22a6},{1242,0x3980e4ef93073},{1242,0x3de005bd620df},{1242,0x3f2013d6fac75},{1242,0x423f268b3114a},{1242,0x48b6b95e48292},{1242,0x4b34954a07ada},{1242,0x4e3e75c72face},{1242,0x59f732b2972d7},{1242,0x5db872d9ba744},{1242,0x65873df49682f},{1242,0x69974dc778512},{1242,0x6ca13aaabfa55},{1242,0x70507036a9023},{1242,0x7ba37c4fbe993},{1242,0x85617887e68e8},{1242,0x9117c0889f9c4},{1242,0x95106fecb6f56},{1242,0x998e85c5c2be2},{1242,0xa53bb31b369a1},{1242,0xad121fad6c9b8},{1242,0xb118c091fcd1b},{1242,0xb270590c8be32},{1242,0xcae8d0ff55ba3},{1242,0xd56498b1cb080},{1242,0xd6faebc7378ae},{1242,0xd870e7ce440e3},{1242,0xdcd0089c1314e},{1242,0xe12f2969e21ba},{1242,0xeac0ed4f8c9f2},{1242,0xf82c7cbd5ad23},{1242,0xfa94936ba823e},
{1243,0x5f88e3aa6604},{1243,0x77aa33e13f81},{1243,0x13587d66003c8},{1243,0x1ac4a9a06260b},{1243,0x21e25fedb22a6},{1243,0x280461b856ec5},{1243,0x3de005bd620df},{1243,0x3f2013d6fac75},{1243,0x3fcd6963b64f5},{1243,0x48b6b95e48292},{1243,0x53bba9c26d2f8},{1243,0x543e4b701b0dd},{1243,0x59f732b2972d7},{1243,0x5db872d9ba744},{1243,0x5df77aa80ac92},{1243,0x6931ba1eb4d92},{1243,0x6ca13aaabfa55},{1243,0x6ee394a57f8f4},{1243,0x70507036a9023},{1243,0x7ba37c4fbe993},{1243,0x85617887e68e8},{1243,0x86f68868d4303},{1243,0x8b2876c5d30e1},{1243,0x8f879793a214c},{1243,0x9117c0889f9c4},{1243,0x95106fecb6f56},{1243,0x998e85c5c2be2},{1243,0x9ffc32a2fb6be},{1243,0xa45c33fbcbb42},{1243,0xa53bb31b369a1},{1243,0xad121fad6c9b8},{1243,0xb4095627eb939},{1243,0xb7798f3bc6e31},{1243,0xb97a6b94ebfaa},{1243,0xc6f4649707f35},{1243,0xcae8d0ff55ba3},{1243,0xd6faebc7378ae},{1243,0xdcd0089c1314e},{1243,0xeb52ce92420af},{1243,0xf2abaca11e368},{1243,0xf82c7cbd5ad23},{1243,0xf9ec816683823},
{1244,0xadc8dad355b1},{1244,0x102e52fe11ef8},{1244,0x13587d66003c8},{1244,0x172b70eababa9},{1244,0x280461b856ec5},{1244,0x2842ffaabbb65},{1244,0x2c72862e2d0c5},{1244,0x2fdbb0e39fb47},{1244,0x3de005bd620df},{1244,0x48b6b95e48292},{1244,0x59aa58047dd43},{1244,0x59f732b2972d7},{1244,0x5db872d9ba744},{1244,0x5df77aa80ac92},{1244,0x62527080db3cd},{1244,0x6931ba1eb4d92},{1244,0x7ba37c4fbe993},{1244,0x81fa02491b425},{1244,0x826a352a3500a},{1244,0x85617887e68e8},{1244,0x8584cd2abbb25},{1244,0x8e27dc3168908},{1244,0x95106fecb6f56},{1244,0x954e95d18e945},{1244,0x9845d92f40223},{1244,0xa53bb31b369a1},{1244,0xa911d7b7f8ffd},{1244,0xcae8d0ff55ba3},{1244,0xd6faebc7378ae},{1244,0xdcd0089c1314e},{1244,0xf2abaca11e368},{1244,0xf82c7cbd5ad23},{1244,0xf9ec816683823},
{1245,0x613e22ab9bed},{1245,0x9e03ac72bbde},{1245,0xadc8dad355b1},{1245,0x102e52fe11ef8},{1245,0x172b70eababa9},{1245,0x1b9aee06f8949},{1245,0x280461b856ec5},{1245,0x2842ffaabbb65},{1245,0x2ebdb9a82385e},{1245,0x32fc5e4c396ed},{1245,0x3de005bd620df},{1245,0x48b6b95e48292},{1245,0x50b9422beb021},{1245,0x5600d0123313b},{1245,0x56b2ed201ebd7},{1245,0x5db872d9ba744},{1245,0x60251d73cb874},{1245,0x7ba37c4fbe993},{1245,0x8584cd2abbb25},{1245,0x8e27dc3168908},{1245,0x92499481e9c73},{1245,0x95106fecb6f56},{1245,0x9d8352ee997f9},{1245,0xa53bb31b369a1},{1245,0xa826dd9052a87},{1245,0xb5f56250bbeee},{1245,0xb7b7e6f2d3f4c},{1245,0xba8af0e5a99b9},{1245,0xc3fd213956656},{1245,0xcae8d0ff55ba3},{1245,0xd09f2a3aa9e90},{1245,0xd6faebc7378ae},{1245,0xdcd0089c1314e},{1245,0xe665f776bc2b7},{1245,0xe9535a1697b23},{1245,0xf2abaca11e368},{1245,0xf82c7cbd5ad23},{1245,0xff1520527c8e4},
{1246,0xadc8dad355b1},{1246,0x102e52fe11ef8},{1246,0x172b70eababa9},{1246,0x280461b856ec5},{1246,0x3de005bd620df},{1246,0x466b47fb284eb},{1246,0x4bf7b9e36c2f8},{1246,0x5600d0123313b},{1246,0x66a00a69c6c33},{1246,0x75f9f64333cdb},{1246,0x7600c178d6a8e},{1246,0x7ba37c4fbe993},{1246,0x7c357b5185d4c},{1246,0x888bf9289f1e6},{1246,0x8ed0582ac19cd},{1246,0x9e7a9307ef4e1},{1246,0xa4af4ce09e79f},{1246,0xa53bb31b369a1},{1246,0xa826dd9052a87},{1246,0xab7d8ec7eb15b},{1246,0xb4cbce4735936},{1246,0xb5f56250bbeee},{1246,0xb7b7e6f2d3f4c},{1246,0xc5e35d07368f2},{1246,0xcae8d0ff55ba3},{1246,0xd09f2a3aa9e90},{1246,0xd6faebc7378ae},{1246,0xdcd0089c1314e},{1246,0xe0af43f088e21},{1246,0xe601094165768},{1246,0xe9535a1697b23},{1246,0xf2abaca11e368},
{1247,0x8b68d5f9f00e},{1247,0xadc8dad355b1},{1247,0xb748c8497a18},{1247,0x172b70eababa9},{1247,0x1cddf5d565b92},{1247,0x280461b856ec5},{1247,0x28a3ead42ed4e},{1247,0x2d86e5820a8c9},{1247,0x37ab4be4b2e21},{1247,0x395a8e6abcb21},{1247,0x3d5ab9c5c7dab},{1247,0x3f1838a224f5e},{1247,0x475236110ed7c},{1247,0x55143804bb75c},{1247,0x551f8dc12710c},{1247,0x5981b59ec401c},{1247,0x5985d956631f7},{1247,0x66a00a69c6c33},{1247,0x75f9f64333cdb},{1247,0x7600c178d6a8e},{1247,0x7ba37c4fbe993},{1247,0x8421c5628eca7},{1247,0x866bba59fd82c},{1247,0x9a43b68754179},{1247,0xa4af4ce09e79f},{1247,0xb4cbce4735936},{1247,0xb5f56250bbeee},{1247,0xc1cb884ef5e4e},{1247,0xcae8d0ff55ba3},{1247,0xce6f2467370d0},{1247,0xd09f2a3aa9e90},{1247,0xd6faebc7378ae},{1247,0xdac74463a989f},{1247,0xe304c274c240c},{1247,0xe822d13a9e63d},{1247,0xf56f346c83394},
{1248,0x530ae46a53fc},{1248,0xadc8dad355b1},{1248,0xe9fa98aba3cb},{1248,0x172b70eababa9},{1248,0x185d778bfaf6a},{1248,0x24b4a3795ca1b},{1248,0x280461b856ec5},{1248,0x2d86e5820a8c9},{1248,0x37ab4be4b2e21},{1248,0x3d5ab9c5c7dab},{1248,0x3f1838a224f5e},{1248,0x475236110ed7c},{1248,0x551f8dc12710c},{1248,0x56f9203d6acd8},{1248,0x5985d956631f7},{1248,0x66a00a69c6c33},{1248,0x74f03c80f9034},{1248,0x7ba37c4fbe993},{1248,0x7ca18a876c5ef},{1248,0x7d0dddd2e14c1},{1248,0x8421c5628eca7},{1248,0x9a43b68754179},{1248,0xb4cbce4735936},{1248,0xb5f56250bbeee},{1248,0xbf194b6f9130d},{1248,0xd09f2a3aa9e90},{1248,0xd2b50817374bf},{1248,0xdac74463a989f},{1248,0xdf86b3273808c},{1248,0xe1f456251481c},{1248,0xe822d13a9e63d},{1248,0xee668761a362d},{1248,0xf56f346c83394},
{1249,0xadc8dad355b1},{1249,0xe9fa98aba3cb},{1249,0x172b70eababa9},{1249,0x20f94f3e8dc82},{1249,0x23fd1bfabb776},{1249,0x24b4a3795ca1b},{1249,0x280461b856ec5},{1249,0x2d86e5820a8c9},{1249,0x2fc81b865a36b},{1249,0x37ab4be4b2e21},{1249,0x3d5ab9c5c7dab},{1249,0x3f1838a224f5e},{1249,0x3f6d34338dd8e},{1249,0x5985d956631f7},{1249,0x5e97eefd9fbc5},{1249,0x6415734abf277},{1249,0x66a00a69c6c33},{1249,0x74f03c80f9034},{1249,0x7ca18a876c5ef},{1249,0x7d0dddd2e14c1},{1249,0x7dc2a9c7b19fb},{1249,0x8421c5628eca7},{1249,0x92bec580331f4},{1249,0x9ced6491c3832},{1249,0xb5f56250bbeee},{1249,0xbc181f5bd5668},{1249,0xbf194b6f9130d},{1249,0xc3da07aab05d6},{1249,0xca2940b736ce1},{1249,0xd2b50817374bf},{1249,0xd380f1d70c531},{1249,0xdb42da25e749f},{1249,0xdf86b3273808c},{1249,0xe2785c3a2a20a},{1249,0xee668761a362d},{1249,0xf475dc60d4005},
{1250,0x9da6b21a8057},{1250,0xadc8dad355b1},{1250,0x172b70eababa9},{1250,0x185d778bfaf6a},{1250,0x2c21606fcbdd4},{1250,0x37ab4be4b2e21},{1250,0x3d5ab9c5c7dab},{1250,0x43bf0c1a50dd0},{1250,0x6415734abf277},{1250,0x66a00a69c6c33},{1250,0x7270027b5d0e8},{1250,0x74f03c80f9034},{1250,0x7ca18a876c5ef},{1250,0x7dc2a9c7b19fb},{1250,0x8421c5628eca7},{1250,0x874cde54fafef},{1250,0x92bec580331f4},{1250,0x9f6e5bd73458b},{1250,0xa48c3351f871f},{1250,0xb58408f487e0e},{1250,0xb5f56250bbeee},{1250,0xc311999798e4f},{1250,0xc3da07aab05d6},{1250,0xc8e93e9c45ae9},{1250,0xca2940b736ce1},{1250,0xd380f1d70c531},{1250,0xdac74463a989f},{1250,0xe2785c3a2a20a},{1250,0xee668761a362d},{1250,0xf2cec62fc43e8},
{1251,0xccc27dd05886},{1251,0x172b70eababa9},{1251,0x185d778bfaf6a},{1251,0x209f3731a87fd},{1251,0x28bc8abe49f63},{1251,0x359ccc88f8699},{1251,0x43843f58e2a8f},{1251,0x43bf0c1a50dd0},{1251,0x4830c88dd9fe6},{1251,0x5e74d56ef9b44},{1251,0x6253db3868b03},{1251,0x6415734abf277},{1251,0x74f03c80f9034},{1251,0x7ca18a876c5ef},{1251,0x7dc2a9c7b19fb},{1251,0x81c1e790f9c01},{1251,0x850708a7aa4b4},{1251,0x874cde54fafef},{1251,0x92bec580331f4},{1251,0x95d38849c0866},{1251,0x9f6e5bd73458b},{1251,0xa48c3351f871f},{1251,0xa5f5942418471},{1251,0xa8a1cdcf5ef96},{1251,0xacb7684cc580e},{1251,0xb58408f487e0e},{1251,0xcc7332641c6dc},{1251,0xdac74463a989f},{1251,0xe2785c3a2a20a},{1251,0xe914c210c6ce6},{1251,0xeaa39134f72f9},{1251,0xeeb92bb25db71},{1251,0xf161199746993},{1251,0xf2cec62fc43e8},
{1252,0xccc27dd05886},{1252,0x131955111839e},{1252,0x1c731209617e1},{1252,0x2904b551e66c2},{1252,0x3bd0586101272},{1252,0x43bf0c1a50dd0},{1252,0x4668ff04848ed},{1252,0x4ea060dc8a6f6},{1252,0x57202d6e2f1ad},{1252,0x5e74d56ef9b44},{1252,0x6253db3868b03},{1252,0x628a6fec603bc},{1252,0x6415734abf277},{1252,0x7ca18a876c5ef},{1252,0x7dc2a9c7b19fb},{1252,0x81c1e790f9c01},{1252,0x850708a7aa4b4},{1252,0x909821b4170c6},{1252,0x92bec580331f4},{1252,0x93323bcb884c9},{1252,0x95d38849c0866},{1252,0x9f6e5bd73458b},{1252,0x9f719a6fbcbe2},{1252,0xa8a1cdcf5ef96},{1252,0xaf027f48dfe8d},{1252,0xb18e615fb9268},{1252,0xbd1ad01d6ef15},{1252,0xdac74463a989f},{1252,0xe1095bfd6e2a6},{1252,0xe2785c3a2a20a},{1252,0xe914c210c6ce6},{1252,0xeeb92bb25db71},{1252,0xf161199746993},
{1253,0x56be34c1891e},{1253,0xecec06ca1778},{1253,0x1c731209617e1},{1253,0x2904b551e66c2},{1253,0x3616f2444abae},{1253,0x3a8f9fd0703da},{1253,0x3bd0586101272},{1253,0x3d73f3bc2d993},{1253,0x513db3b2a1a02},{1253,0x57202d6e2f1ad},{1253,0x5e74d56ef9b44},{1253,0x628a6fec603bc},{1253,0x6415734abf277},{1253,0x72ebad6ddc73c},{1253,0x7ca18a876c5ef},{1253,0x7dc2a9c7b19fb},{1253,0x81c1e790f9c01},{1253,0x909821b4170c6},{1253,0x9f6e5bd73458b},{1253,0xa07698d491ea7},{1253,0xa8a1cdcf5ef96},{1253,0xae4495fa51a50},{1253,0xaf027f48dfe8d},{1253,0xb024e73afc49a},{1253,0xb30832528c3ad},{1253,0xb5f26669ec95f},{1253,0xb9a0535428d5f},{1253,0xc0f5b3bef301d},{1253,0xd4ad9d5ba4067},{1253,0xe1095bfd6e2a6},{1253,0xeeb92bb25db71},{1253,0xf161199746993},{1253,0xf3d731c2c02c0},
{1254,0x56be34c1891e},{1254,0xecec06ca1778},{1254,0x1c731209617e1},{1254,0x28bc8abe49f63},{1254,0x2904b551e66c2},{1254,0x3bd0586101272},{1254,0x3d73f3bc2d993},{1254,0x454b1aef62c8c},{1254,0x4fff31d446ea7},{1254,0x5e74d56ef9b44},{1254,0x72ebad6ddc73c},{1254,0x7ca18a876c5ef},{1254,0x7f75b721c5cf6},{1254,0x81c1e790f9c01},{1254,0x890cbbb1569d4},{1254,0x8b0ade88519d7},{1254,0x909821b4170c6},{1254,0x96168fb745a82},{1254,0xa8a1cdcf5ef96},{1254,0xaf027f48dfe8d},{1254,0xb9a0535428d5f},{1254,0xbd1ad01d6ef15},{1254,0xeeb92bb25db71},{1254,0xf161199746993},{1254,0xf3d731c2c02c0},
{1255,0xfde34c996085},{1255,0x17b902b035094},{1255,0x1c731209617e1},{1255,0x23ade3d6bae30},{1255,0x28bc8abe49f63},{1255,0x2904b551e66c2},{1255,0x2a0622145180a},{1255,0x3bd0586101272},{1255,0x3d73f3bc2d993},{1255,0x4cb73e203dcf4},{1255,0x4efa78e96fb7b},{1255,0x4fff31d446ea7},{1255,0x58074bbf33703},{1255,0x5908b8819e84b},{1255,0x72ebad6ddc73c},{1255,0x7ca18a876c5ef},{1255,0x81c1e790f9c01},{1255,0x8b0ade88519d7},{1255,0x909821b4170c6},{1255,0xac545443f05e3},{1255,0xaf027f48dfe8d},{1255,0xbb2d0be7784ab},{1255,0xbd1ad01d6ef15},{1255,0xc5e9e307ad9d2},{1255,0xcedab6ed9b7bb},{1255,0xdc2ded9a4465c},{1255,0xe55b82e7cb538},{1255,0xeeb92bb25db71},{1255,0xf3d731c2c02c0},
{1256,0xe9272fe26cd9},{1256,0xfde34c996085},{1256,0x1959a0e2c294a},{1256,0x23ade3d6bae30},{1256,0x2774d6b90cb08},{1256,0x2a0622145180a},{1256,0x3bd0586101272},{1256,0x3d73f3bc2d993},{1256,0x4cb73e203dcf4},{1256,0x4efa78e96fb7b},{1256,0x639455b0068db},{1256,0x72ebad6ddc73c},{1256,0x7c507fd1d2f1f},{1256,0x7ca18a876c5ef},{1256,0x7efe7c1927d04},{1256,0x80dd1db457622},{1256,0x893387c48c4d0},{1256,0x8b0ade88519d7},{1256,0x9a2c2a34ac2f9},{1256,0xaf027f48dfe8d},{1256,0xb4099f14f74f5},{1256,0xb584d5c218548},{1256,0xbb2d0be7784ab},{1256,0xbd1ad01d6ef15},{1256,0xc5e9e307ad9d2},{1256,0xcedab6ed9b7bb},{1256,0xdc2ded9a4465c},{1256,0xdf06827898016},{1256,0xe18a125ea3b4a},{1256,0xe55b82e7cb538},{1256,0xeab0a210b1f05},{1256,0xeb959708b70cf},
{1257,0xfde34c996085},{1257,0x1630c2126556d},{1257,0x1949f5b75609a},{1257,0x1959a0e2c294a},{1257,0x1f76a66857a68},{1257,0x1f984959545b8},{1257,0x2139b082e9879},{1257,0x2df125113c16b},{1257,0x3a4ebc6c3abbc},{1257,0x3bd0586101272},{1257,0x4d1389b5d6b5e},{1257,0x5807640e37597},{1257,0x5ce239c700459},{1257,0x5e56bb0aac44a},{1257,0x639455b0068db},{1257,0x72ebad6ddc73c},{1257,0x7c507fd1d2f1f},{1257,0x7f75b721c5cf6},{1257,0x80dd1db457622},{1257,0x85c81a397a9aa},{1257,0x8b0ade88519d7},{1257,0x9a2c2a34ac2f9},{1257,0xaf027f48dfe8d},{1257,0xb4099f14f74f5},{1257,0xba52a536d9730},{1257,0xbbbc2233b361d},{1257,0xcedab6ed9b7bb},{1257,0xcfa698c95390b},{1257,0xdf06827898016},{1257,0xdf5324ea37433},{1257,0xe18a125ea3b4a},{1257,0xea39e56693c20},{1257,0xec6d65df15263},{1257,0xeea0e657968a6},{1257,0xf0d466d017ee9},{1257,0xfa0997fd1da37},{1257,0xfb9c33a517122},
{1258,0xfde34c996085},{1258,0x1630c2126556d},{1258,0x1959a0e2c294a},{1258,0x1f76a66857a68},{1258,0x2a467d44ec45c},{1258,0x2a8d270c2b986},{1258,0x2b884537f21f6},{1258,0x2df125113c16b},{1258,0x3bd0586101272},{1258,0x4471f10b6bee8},{1258,0x48c2bd60a1523},{1258,0x493129eb1a0d2},{1258,0x4d1389b5d6b5e},{1258,0x55052f7f211bf},{1258,0x57c6f08e98ab1},{1258,0x5807640e37597},{1258,0x5ce239c700459},{1258,0x5e56bb0aac44a},{1258,0x681e17e5e4b83},{1258,0x6c995ccc699bc},{1258,0x6f99ec5f81d36},{1258,0x72ebad6ddc73c},{1258,0x7c507fd1d2f1f},{1258,0x85c81a397a9aa},{1258,0x9a2c2a34ac2f9},{1258,0xa363805e027fa},{1258,0xaf027f48dfe8d},{1258,0xb3a9164c0f27a},{1258,0xbcbfa78f71b96},{1258,0xcedab6ed9b7bb},{1258,0xcfa698c95390b},{1258,0xdf38630c0ccd1},{1258,0xdf5324ea37433},{1258,0xe18a125ea3b4a},{1258,0xea39e56693c20},{1258,0xec6d65df15263},{1258,0xeea0e657968a6},{1258,0xf53b67c11ab6f},{1258,0xfa0997fd1da37},
{1259,0xa9964a6f6733},{1259,0xe4e8aabf196a},{1259,0x1959a0e2c294a},{1259,0x1f76a66857a68},{1259,0x332ebfb6965fc},{1259,0x3b59f138eeb47},{1259,0x3bd0586101272},{1259,0x4471f10b6bee8},{1259,0x48c2bd60a1523},{1259,0x4d1389b5d6b5e},{1259,0x55052f7f211bf},{1259,0x55b52260417d4},{1259,0x5ce239c700459},{1259,0x5e56bb0aac44a},{1259,0x64bdcb49b4f0a},{1259,0x6c995ccc699bc},{1259,0x72b23cb2a0bb4},{1259,0x72ebad6ddc73c},{1259,0x7474ee4f1e46d},{1259,0x7798acd9e6a5c},{1259,0x854763d845106},{1259,0x85e847d1c7fd3},{1259,0x8b904b9762508},{1259,0x939ba58338ffe},{1259,0x9a2c2a34ac2f9},{1259,0x9cb89842c4e12},{1259,0xa363805e027fa},{1259,0xa830d7476a046},{1259,0xab75e8e20ef48},{1259,0xaf027f48dfe8d},{1259,0xb3a9164c0f27a},{1259,0xbcbfa78f71b96},{1259,0xca89ea9866180},{1259,0xdf38630c0ccd1},{1259,0xdf5324ea37433},{1259,0xe18a125ea3b4a},{1259,0xe6d553a03157f},{1259,0xea39e56693c20},{1259,0xec6d65df15263},{1259,0xf53b67c11ab6f},{1259,0xf5e6e6abdb197},{1259,0xf9b377062e496},
{1260,0x1cd29c75746f},{1260,0xa9964a6f6733},{1260,0x21eb8e61c0d10},{1260,0x253f5d78d4df4},{1260,0x34bae7e025d3b},{1260,0x3598623978ee1},{1260,0x402124b6368ad},{1260,0x420e574cc8035},{1260,0x4471f10b6bee8},{1260,0x44abe434671fe},{1260,0x48c2bd60a1523},{1260,0x4d1389b5d6b5e},{1260,0x5164560b0c199},{1260,0x5867d4881b97e},{1260,0x5bbcf296feac8},{1260,0x5ce239c700459},{1260,0x6e4b3bc19df2e},{1260,0x6ed79c3030542},{1260,0x72ebad6ddc73c},{1260,0x783b8509ec9ac},{1260,0x842c1154879d0},{1260,0x854763d845106},{1260,0x88e26b87496ab},{1260,0x9a2c2a34ac2f9},{1260,0x9cb89842c4e12},{1260,0xa363805e027fa},{1260,0xa830d7476a046},{1260,0xab75e8e20ef48},{1260,0xaf027f48dfe8d},{1260,0xbcbfa78f71b96},{1260,0xce09663cd47e5},{1260,0xcfa698c95390b},{1260,0xdf38630c0ccd1},{1260,0xdf5324ea37433},{1260,0xe109a4ea79e62},{1260,0xe18a125ea3b4a},{1260,0xea39e56693c20},{1260,0xf5e6e6abdb197},
{1261,0x3522c28c9899},{1261,0xa9964a6f6733},{1261,0x194e971c03dfe},{1261,0x21c81f7dd43a7},{1261,0x21eb8e61c0d10},{1261,0x377f8c0bcbc37},{1261,0x420e574cc8035},{1261,0x4471f10b6bee8},{1261,0x44abe434671fe},{1261,0x45688a56b4aac},{1261,0x48c2bd60a1523},{1261,0x4d1389b5d6b5e},{1261,0x5867d4881b97e},{1261,0x5ce239c700459},{1261,0x62a7875fe1a85},{1261,0x6c23c4dbd00fe},{1261,0x6e4b3bc19df2e},{1261,0x6ed79c3030542},{1261,0x783b8509ec9ac},{1261,0x804025a968c65},{1261,0x842c1154879d0},{1261,0x9a2c2a34ac2f9},{1261,0xa274b7c51772c},{1261,0xa830d7476a046},{1261,0xab75e8e20ef48},{1261,0xbcbfa78f71b96},{1261,0xc7bfb3ff8402b},{1261,0xce09663cd47e5},{1261,0xce6f060472297},{1261,0xce8b7bb218648},{1261,0xcfa698c95390b},{1261,0xdf38630c0ccd1},{1261,0xe109a4ea79e62},{1261,0xe18a125ea3b4a},{1261,0xe22af65826a17},{1261,0xf5e6e6abdb197},{1261,0xf89abe003b5db},
{1262,0x4cdb5f13f016},{1262,0xa9964a6f6733},{1262,0x16d8fdb329120},{1262,0x194e971c03dfe},{1262,0x377f8c0bcbc37},{1262,0x37ffbe2f020d0},{1262,0x40986ea98b376},{1262,0x48c2bd60a1523},{1262,0x4d1389b5d6b5e},{1262,0x4ebf2b2ebadc9},{1262,0x51e22d56edfc4},{1262,0x5867d4881b97e},{1262,0x5ce239c700459},{1262,0x62a7875fe1a85},{1262,0x6e4b3bc19df2e},{1262,0x6ed79c3030542},{1262,0x78b75c2393e59},{1262,0x8b8439bbcd2c4},{1262,0x9250f6e342242},{1262,0x9a2c2a34ac2f9},{1262,0xa552c78640bb9},{1262,0xa830d7476a046},{1262,0xa9faa92c2b2cf},{1262,0xab75e8e20ef48},{1262,0xb0339eeea53aa},{1262,0xbb13862aa1efe},{1262,0xbcbfa78f71b96},{1262,0xc4dd74d306dc8},{1262,0xc7bfb3ff8402b},{1262,0xce8b7bb218648},{1262,0xe109a4ea79e62},{1262,0xe22af65826a17},{1262,0xec0fe8fba4a26},{1262,0xeca10255e8c9c},{1262,0xf5e6e6abdb197},{1262,0xfd2e711bc5e14},
{1263,0xa9964a6f6733},{1263,0xb29b18d4958d},{1263,0x1a50e23a15217},{1263,0x40986ea98b376},{1263,0x48c2bd60a1523},{1263,0x4d1389b5d6b5e},{1263,0x5867d4881b97e},{1263,0x62a7875fe1a85},{1263,0x6e4b3bc19df2e},{1263,0x6ed79c3030542},{1263,0x7475aab1b3861},{1263,0x76072bc5cd15f},{1263,0x78b75c2393e59},{1263,0x9250f6e342242},{1263,0x99da88819b985},{1263,0x9a2c2a34ac2f9},{1263,0xa552c78640bb9},{1263,0xa830d7476a046},{1263,0xab75e8e20ef48},{1263,0xad08557163136},{1263,0xb0339eeea53aa},{1263,0xb38dd1f891e21},{1263,0xc7bfb3ff8402b},{1263,0xce8b7bb218648},{1263,0xd0befc2a99c8b},{1263,0xe109a4ea79e62},{1263,0xe22af65826a17},{1263,0xe36e505139db0},{1263,0xe599293a9d829},{1263,0xec0fe8fba4a26},{1263,0xf5e6e6abdb197},{1263,0xf9024dfb44cd7},{1263,0xfc781b31d4392},{1263,0xfe36afea408cc},
{1264,0x49ac7e7e89ae},{1264,0xb29b18d4958d},{1264,0xdb9e2cd88d67},{1264,0x1a50e23a15217},{1264,0x1d2ef1fb3e6a4},{1264,0x21c81f7dd43a7},{1264,0x2908ababc2331},{1264,0x48c2bd60a1523},{1264,0x4bb137a003be0},{1264,0x4d1389b5d6b5e},{1264,0x5867d4881b97e},{1264,0x5fd1d4e02aee8},{1264,0x62a7875fe1a85},{1264,0x6ed79c3030542},{1264,0x74738e1a35833},{1264,0x78b75c2393e59},{1264,0x8750ea732fdad},{1264,0x9840ed0388487},{1264,0x9a2c2a34ac2f9},{1264,0xa830d7476a046},{1264,0xb687260d38707},{1264,0xc450d12a31274},{1264,0xc867fe662e427},{1264,0xd0befc2a99c8b},{1264,0xe22af65826a17},{1264,0xe599293a9d829},{1264,0xe8f35c448a2a0},{1264,0xedb1c9ed7fd17},{1264,0xf5e6e6abdb197},{1264,0xf9024dfb44cd7},{1264,0xfb1e371c33664},{1264,0xfe36afea408cc},
{1265,0x82546fa1922},{1265,0x1bc11ac8b2e7},{1265,0x49ac7e7e89ae},{1265,0xb29b18d4958d},{1265,0xdb9e2cd88d67},{1265,0x177a24123015c},{1265,0x1cb2d939f8736},{1265,0x1d2ef1fb3e6a4},{1265,0x218c20692308c},{1265,0x48c2bd60a1523},{1265,0x4bb137a003be0},{1265,0x5867d4881b97e},{1265,0x5fd1d4e02aee8},{1265,0x61e55c3811957},{1265,0x62a7875fe1a85},{1265,0x62afe4a154375},{1265,0x74738e1a35833},{1265,0x8750ea732fdad},{1265,0x89bdad595ec3e},{1265,0x90be8a53ee053},{1265,0x9840ed0388487},{1265,0xa414a968ebfb9},{1265,0xa830d7476a046},{1265,0xadd4eaad933ae},{1265,0xb687260d38707},{1265,0xc176777fd0ce9},{1265,0xc98248b9e0468},{1265,0xd8305d12eae4d},{1265,0xdc2dd60df1bde},{1265,0xdd3bfa4339837},{1265,0xe20bfe3b66e32},{1265,0xe22af65826a17},{1265,0xe599293a9d829},{1265,0xedb1c9ed7fd17},{1265,0xf6e5349c12ad2},{1265,0xf9024dfb44cd7},{1265,0xfe36afea408cc},
{1266,0x672e19cea43a},{1266,0x8ce499519ce3},{1266,0xb29b18d4958d},{1266,0x218c20692308c},{1266,0x2385a8233abd8},{1266,0x34e33177e794a},{1266,0x3e3d06b15bacc},{1266,0x48c2bd60a1523},{1266,0x51eb60273792e},{1266,0x5867d4881b97e},{1266,0x7c56a955268cb},{1266,0x8750ea732fdad},{1266,0x89bdad595ec3e},{1266,0x8c07ba638ef00},{1266,0x8fe16829b1cac},{1266,0x90798d39c61b8},{1266,0x90be8a53ee053},{1266,0xa08fad44e1140},{1266,0xa830d7476a046},{1266,0xb07145417769b},{1266,0xb67509d6e6aeb},{1266,0xb687260d38707},{1266,0xbcb674bf2822c},{1266,0xdd3bfa4339837},{1266,0xe22af65826a17},{1266,0xedb1c9ed7fd17},{1266,0xf6e5349c12ad2},{1266,0xf9024dfb44cd7},{1266,0xfe36afea408cc},
{1267,0x672e19cea43a},{1267,0x71edb8fed80f},{1267,0x8ce499519ce3},{1267,0xb29b18d4958d},{1267,0xfab9d85f6f6c},{1267,0x1497516e07833},{1267,0x2ad66079c2dc4},{1267,0x2af99af350428},{1267,0x34e33177e794a},{1267,0x4c125e53cacce},{1267,0x524c3edd9f138},{1267,0x5867d4881b97e},{1267,0x5905b40ab93ba},{1267,0x801094c599273},{1267,0x8750ea732fdad},{1267,0x8c07ba638ef00},{1267,0x8e63225bbe7aa},{1267,0x90798d39c61b8},{1267,0x9d79a22b50a61},{1267,0x9ee2fa250b44c},{1267,0xa08fad44e1140},{1267,0xa45919227fd91},{1267,0xb563a921ec550},{1267,0xc4c8b1349b9b5},{1267,0xd21c77fd5c20f},{1267,0xdd3bfa4339837},{1267,0xe2c8d5dac4453},{1267,0xe366b55d61e8f},{1267,0xe8a705790238a},{1267,0xedb1c9ed7fd17},{1267,0xf20ff62044c47},{1267,0xf21bff0b206ab},{1267,0xfa0a837858328},{1267,0xfe36afea408cc},
{1268,0x71edb8fed80f},{1268,0x8ce499519ce3},{1268,0x1497516e07833},{1268,0x2ad66079c2dc4},{1268,0x2af99af350428},{1268,0x2ed71b686bcc5},{1268,0x34e33177e794a},{1268,0x3bccec64868f4},{1268,0x4a6b01fc545f2},{1268,0x4c125e53cacce},{1268,0x524c3edd9f138},{1268,0x5867d4881b97e},{1268,0x58b6c4496a69c},{1268,0x65b306df51f82},{1268,0x8750ea732fdad},{1268,0x8e63225bbe7aa},{1268,0x9319f24c1d8fd},{1268,0x9d6f5e35e0de7},{1268,0x9d79a22b50a61},{1268,0xaa652f31fba16},{1268,0xaf162bc372f08},{1268,0xbc8971606efa5},{1268,0xc4c8b1349b9b5},{1268,0xcfffdac2f90b8},{1268,0xdd3bfa4339837},{1268,0xdfe720f56df93},{1268,0xe2c8d5dac4453},{1268,0xe366b55d61e8f},{1268,0xedb1c9ed7fd17},{1268,0xf20ff62044c47},{1268,0xf21bff0b206ab},{1268,0xfb7c72e591a9b},{1268,0xfd2b38ec78ec8},
{1269,0x8ce499519ce3},{1269,0x11769bf9e6c92},{1269,0x2ed71b686bcc5},{1269,0x34e33177e794a},{1269,0x480f9a0424d48},{1269,0x4844b3ac8a6a3},{1269,0x5867d4881b97e},{1269,0x58b6c4496a69c},{1269,0x5b7d32152fcaa},{1269,0x65b306df51f82},{1269,0x6ae805d694c86},{1269,0x6c67122c096ce},{1269,0x8750ea732fdad},{1269,0x9319f24c1d8fd},{1269,0x9e4d03130410c},{1269,0xaa652f31fba16},{1269,0xae03ca9343fdc},{1269,0xc7c5aea080a49},{1269,0xcfffdac2f90b8},{1269,0xd25b42bb28962},{1269,0xdb6c53aa702fe},{1269,0xdd3bfa4339837},{1269,0xe1dc0696d7cf9},{1269,0xe2a15dfa1cdc4},{1269,0xe366b55d61e8f},{1269,0xe5262e0f05a7c},{1269,0xedb1c9ed7fd17},{1269,0xf124742b84478},{1269,0xf20ff62044c47},{1269,0xf4971e6988bd9},
{1270,0x8ce499519ce3},{1270,0x11769bf9e6c92},{1270,0x26a1c42f36ac3},{1270,0x286ef1cc9f516},{1270,0x34e33177e794a},{1270,0x3c46922b371f9},{1270,0x480f9a0424d48},{1270,0x4844b3ac8a6a3},{1270,0x531f9fc5527e3},{1270,0x5867d4881b97e},{1270,0x5b7d32152fcaa},{1270,0x69981a4575d2b},{1270,0x6ae805d694c86},{1270,0x8750ea732fdad},{1270,0x9dac1121c3a30},{1270,0x9e4d03130410c},{1270,0xba98a8192f254},{1270,0xc4c8b1349b9b5},{1270,0xc7c5aea080a49},{1270,0xd25b42bb28962},{1270,0xdcf0d6d5d087a},{1270,0xdd3bfa4339837},{1270,0xe2a15dfa1cdc4},{1270,0xe4f16423ec025},{1270,0xe97a6660b5a35},{1270,0xedb1c9ed7fd17},{1270,0xf124742b84478},{1270,0xf1fbeaf2ae194},{1270,0xf20ff62044c47},{1270,0xf4971e6988bd9},
{1271,0x8ce499519ce3},{1271,0x11769bf9e6c92},{1271,0x1afd6ec0e1411},{1271,0x1dd1e30f9bd3a},{1271,0x3437f9a58d065},{1271,0x3c46922b371f9},{1271,0x445cf473184e0},{1271,0x4844b3ac8a6a3},{1271,0x4c00bf2758ee0},{1271,0x531f9fc5527e3},{1271,0x57a27d24d68b3},{1271,0x69981a4575d2b},{1271,0x6ae805d694c86},{1271,0x7733b967dba86},{1271,0x7d651a43e3f3c},{1271,0x8750ea732fdad},{1271,0x8c2f9b0e0827e},{1271,0x9025d77c408eb},{1271,0x9d05c27b6976e},{1271,0x9d2a54e667975},{1271,0x9d8499411c3a1},{1271,0x9e4d03130410c},{1271,0xc4c8b1349b9b5},{1271,0xc7c5aea080a49},{1271,0xd25b42bb28962},{1271,0xdd3bfa4339837},{1271,0xe116af3392c2e},{1271,0xe2a15dfa1cdc4},{1271,0xf124742b84478},{1271,0xf1fbeaf2ae194},
{1272,0x8ce499519ce3},{1272,0x11769bf9e6c92},{1272,0x12ba19c465b55},{1272,0x14d5be95a50f1},{1272,0x1dd1e30f9bd3a},{1272,0x363c1ddd3dcd2},{1272,0x401f6eb7f93ee},{1272,0x44552ab0e138c},{1272,0x4844b3ac8a6a3},{1272,0x52ea060841a29},{1272,0x57a27d24d68b3},{1272,0x5dc4720c5e709},{1272,0x72b784497900c},{1272,0x7733b967dba86},{1272,0x784ca0f851922},{1272,0x792001e004fcd},{1272,0x7d651a43e3f3c},{1272,0x8750ea732fdad},{1272,0x9025d77c408eb},{1272,0x98aee472fb3ba},{1272,0x9e49f0a46146c},{1272,0x9e4d03130410c},{1272,0x9e9299a96e9ac},{1272,0xc780d6b70bc81},{1272,0xc7c5aea080a49},{1272,0xd25b42bb28962},{1272,0xdd3bfa4339837},{1272,0xe2a15dfa1cdc4},{1272,0xf124742b84478},{1272,0xf6dc78ce060d8},{1272,0xfbe7bb21fa006},{1272,0xfc7a976e0ee2a},
{1273,0x11769bf9e6c92},{1273,0x14d5be95a50f1},{1273,0x1afd6ec0e1411},{1273,0x1dd1e30f9bd3a},{1273,0x363c1ddd3dcd2},{1273,0x37b240c7ebff3},{1273,0x4844b3ac8a6a3},{1273,0x57a27d24d68b3},{1273,0x598052e6311bd},{1273,0x5dc4720c5e709},{1273,0x728aae3fc725b},{1273,0x7e2d8e8853059},{1273,0x8c6ebdebad54b},{1273,0x9a6f3bb408075},{1273,0x9b1fef6b6a24b},{1273,0x9e9299a96e9ac},{1273,0xa20543e77310d},{1273,0xa87c262151e19},{1273,0xa87c262151e1a},{1273,0xbfb04febfa04d},{1273,0xc7c5aea080a49},{1273,0xd25b42bb28962},{1273,0xe2a15dfa1cdc4},{1273,0xe7217eee914b4},{1273,0xf08182f4f7c0a},{1273,0xfc7a976e0ee2a},
{1274,0x11769bf9e6c92},{1274,0x14d5be95a50f1},{1274,0x1afd6ec0e1411},{1274,0x1dd1e30f9bd3a},{1274,0x363c1ddd3dcd2},{1274,0x37b240c7ebff3},{1274,0x510cce5e9fd4b},{1274,0x57a27d24d68b3},{1274,0x5dc4720c5e709},{1274,0x61bcca7119915},{1274,0x6827902612cb2},{1274,0x7908dc6c6f494},{1274,0x7fbbf7b43651e},{1274,0x8729b30249ca2},{1274,0x90a300c358e03},{1274,0x90c7f0b15cc28},{1274,0x9b1fef6b6a24b},{1274,0x9e9299a96e9ac},{1274,0xa20543e77310d},{1274,0xa21e20702e17d},{1274,0xb342971d895f2},{1274,0xc5a39f0d69fa3},{1274,0xc7c5aea080a49},{1274,0xcc90f10d1cae6},{1274,0xd25b42bb28962},{1274,0xd5a6d46ba8f95},{1274,0xd67a35535c640},{1274,0xd74d963b0fceb},{1274,0xd820f722c3396},{1274,0xdcbe60d4dcf0b},{1274,0xe7217eee914b4},{1274,0xef3b81d18a31e},{1274,0xf08182f4f7c0a},{1274,0xf3b7394f8bc1a},
{1275,0x2fd57fa5dc12},{1275,0x14d5be95a50f1},{1275,0x1afd6ec0e1411},{1275,0x1d1d37de1a0fe},{1275,0x1dd1e30f9bd3a},{1275,0x32142227e32a1},{1275,0x363c1ddd3dcd2},{1275,0x375c4886d382d},{1275,0x3e5d1c98fd693},{1275,0x50a52d86b0e8f},{1275,0x57a27d24d68b3},{1275,0x5d0ff70f19d79},{1275,0x5dc4720c5e709},{1275,0x612aec5568930},{1275,0x6827902612cb2},{1275,0x6d591f32ecf87},{1275,0x75316a0e5c410},{1275,0x7fbbf7b43651e},{1275,0x9041b682edfbf},{1275,0x90a300c358e03},{1275,0x90c7f0b15cc28},{1275,0x91b4088ce4356},{1275,0x94f9ab9664c76},{1275,0x9e9299a96e9ac},{1275,0xa20543e77310d},{1275,0xac3457b1ecc26},{1275,0xaed2c1e1bbbad},{1275,0xb342971d895f2},{1275,0xbbd59afba0c56},{1275,0xc7c5aea080a49},{1275,0xd25950ccdb4e9},{1275,0xd25b42bb28962},{1275,0xd67a35535c640},{1275,0xd74d963b0fceb},{1275,0xda9b19d9dd797},{1275,0xdcbe60d4dcf0b},{1275,0xe1efefe1b71df},{1275,0xef3b81d18a31e},{1275,0xf97da76eee853},
{1276,0x207cad683bbd},{1276,0x2fd57fa5dc12},{1276,0x3256c9dd72d7},{1276,0x6dd5700aa500},{1276,0x14d5be95a50f1},{1276,0x1dd1e30f9bd3a},{1276,0x2b43604840a1c},{1276,0x2cad45acef552},{1276,0x32142227e32a1},{1276,0x363c1ddd3dcd2},{1276,0x375c4886d382d},{1276,0x3e5d1c98fd693},{1276,0x4981a68efc0a5},{1276,0x4abe99716daa7},{1276,0x5d0ff70f19d79},{1276,0x5dc4720c5e709},{1276,0x612aec5568930},{1276,0x6827902612cb2},{1276,0x693e1bf91ed3c},{1276,0x75316a0e5c410},{1276,0x77bc3d4ca1530},{1276,0x7fbbf7b43651e},{1276,0x9fa43aab4ad79},{1276,0xa20543e77310d},{1276,0xa50bc003e4f49},{1276,0xb342971d895f2},{1276,0xbbd59afba0c56},{1276,0xc1d5beb2d6f8d},{1276,0xc7c5aea080a49},{1276,0xc90094f9f6843},{1276,0xd25b42bb28962},{1276,0xd62b8ef84c430},{1276,0xd67a35535c640},{1276,0xda9b19d9dd797},{1276,0xe1efefe1b71df},{1276,0xeb1eabf3e1cf3},{1276,0xec530dfb6b788},{1276,0xf97da76eee853},{1276,0xf993358defbf0},
{1277,0x207cad683bbd},{1277,0x6dd5700aa500},{1277,0x94d97d4d32d0},{1277,0x14d5be95a50f1},{1277,0x1cb209aeab9f5},{1277,0x1e8cba6ef40e9},{1277,0x261ef550bd348},{1277,0x3074ef551acf0},{1277,0x363c1ddd3dcd2},{1277,0x375c4886d382d},{1277,0x4981a68efc0a5},{1277,0x510cce5e9fd4b},{1277,0x5dc4720c5e709},{1277,0x5ed579d5e9c5c},{1277,0x60578b6db5285},{1277,0x612aec5568930},{1277,0x61bcca7119915},{1277,0x6cb0c6372349d},{1277,0x75316a0e5c410},{1277,0x77bc3d4ca1530},{1277,0x7fbbf7b43651e},{1277,0x83e85ad146b74},{1277,0x9bd290d4627b8},{1277,0x9e6bac3aa2d15},{1277,0x9fa43aab4ad79},{1277,0xa17fa6fef547c},{1277,0xa50bc003e4f49},{1277,0xb342971d895f2},{1277,0xc7c5aea080a49},{1277,0xc90094f9f6843},{1277,0xce0269d031df0},{1277,0xd67a35535c640},{1277,0xea3398dbe6023},{1277,0xeb1eabf3e1cf3},{1277,0xec530dfb6b788},
{1278,0x207cad683bbd},{1278,0x6dd5700aa500},{1278,0x7aac4974f504},{1278,0xf5cea4297ad9},{1278,0x14d5be95a50f1},{1278,0x1cb209aeab9f5},{1278,0x1d33699e63039},{1278,0x261ef550bd348},{1278,0x3074ef551acf0},{1278,0x363c1ddd3dcd2},{1278,0x375c4886d382d},{1278,0x471cb0b0bc9fd},{1278,0x5ed579d5e9c5c},{1278,0x60578b6db5285},{1278,0x612aec5568930},{1278,0x646485d5a093d},{1278,0x6899547ab7533},{1278,0x6cb0c6372349d},{1278,0x6eeb29c7cdc9a},{1278,0x75316a0e5c410},{1278,0x77bc3d4ca1530},{1278,0x7e7ebe94e5874},{1278,0x7fbbf7b43651e},{1278,0x83e85ad146b74},{1278,0x8b13f4c3a2122},{1278,0x8df463bf3cc38},{1278,0x9eeb9fa2ac761},{1278,0x9fa43aab4ad79},{1278,0xa17fa6fef547c},{1278,0xa50bc003e4f49},{1278,0xa6df30c234187},{1278,0xaca90f04ae85f},{1278,0xb7526fb15a5e8},{1278,0xc90094f9f6843},{1278,0xcd2f6a7e557e7},{1278,0xce0269d031df0},{1278,0xd047c9b4718ec},{1278,0xd284356d9c43a},{1278,0xd67a35535c640},{1278,0xe35688f6a201d},{1278,0xea3398dbe6023},{1278,0xeb1eabf3e1cf3},{1278,0xfd1933fdb747f},
{1279,0x17d67ab86a4a},{1279,0x207cad683bbd},{1279,0x65883fa792d0},{1279,0x7aac4974f504},{1279,0xa524c8a3cfe3},{1279,0xf5cea4297ad9},{1279,0x19cd2df978fe4},{1279,0x1cb209aeab9f5},{1279,0x1d33699e63039},{1279,0x2756a8be22153},{1279,0x2a07291abf911},{1279,0x2d24e57079bd6},{1279,0x363c1ddd3dcd2},{1279,0x43d71a15eb9ec},{1279,0x612aec5568930},{1279,0x6cb0c6372349d},{1279,0x6eeb29c7cdc9a},{1279,0x6fd4d575270d2},{1279,0x7614385a50ca3},{1279,0x77bc3d4ca1530},{1279,0x7d3dcb1b3cbe6},{1279,0x8b13f4c3a2122},{1279,0x8df463bf3cc38},{1279,0x9fa43aab4ad79},{1279,0xa50bc003e4f49},{1279,0xa6df30c234187},{1279,0xbad4d1ff52851},{1279,0xc90094f9f6843},{1279,0xcd2f6a7e557e7},{1279,0xce0269d031df0},{1279,0xd047c9b4718ec},{1279,0xd40347ad791ef},{1279,0xd5ab4c9fc9a7c},{1279,0xd67a35535c640},{1279,0xe9030416ca66e},{1279,0xea3398dbe6023},{1279,0xeb1eabf3e1cf3},{1279,0xf204006feabb5},{1279,0xfd1933fdb747f},
{1280,0x65883fa792d0},{1280,0x6b552dfd7763},{1280,0x7aac4974f504},{1280,0x8b25a8c8db4b},{1280,0xf5cea4297ad9},{1280,0x12b2321d9caa0},{1280,0x160779f8a1a67},{1280,0x19cd2df978fe4},{1280,0x1cb209aeab9f5},{1280,0x1d33699e63039},{1280,0x2756a8be22153},{1280,0x28105ae299ce0},{1280,0x2a07291abf911},{1280,0x2def5ce4c1eda},{1280,0x3d51ff5a8fccb},{1280,0x407c9ce77a7c9},{1280,0x43d71a15eb9ec},{1280,0x48c4b5a30d28a},{1280,0x4ba0fdca07f84},{1280,0x549535cb224c0},{1280,0x549ef61674ba2},{1280,0x5e6bd224d6ed9},{1280,0x687fe0e547d01},{1280,0x6cb0c6372349d},{1280,0x6fd4d575270d2},{1280,0x77bc3d4ca1530},{1280,0x8b13f4c3a2122},{1280,0x8d28a7b4a4016},{1280,0xab722f8984a60},{1280,0xba2bfd0d5ff5b},{1280,0xbad4d1ff52851},{1280,0xc90094f9f6843},{1280,0xce0269d031df0},{1280,0xd047c9b4718ec},{1280,0xd5ab4c9fc9a7c},{1280,0xd67a35535c640},{1280,0xe390ea9f12aae},{1280,0xea3398dbe6023},{1280,0xeb1eabf3e1cf3},{1280,0xf1717caf0bf46},
{1281,0x8b25a8c8db4b},{1281,0xc07a26792b12},{1281,0xf5cea4297ad9},{1281,0x12b2321d9caa0},{1281,0x160779f8a1a67},{1281,0x1705fdcefcc5b},{1281,0x1d33699e63039},{1281,0x2756a8be22153},{1281,0x2a07291abf911},{1281,0x2def5ce4c1eda},{1281,0x356cfe2c0c697},{1281,0x407c9ce77a7c9},{1281,0x47f7fe9c6cb43},{1281,0x4b5bf7a8f16d7},{1281,0x4b7dc25533cbd},{1281,0x4ba0fdca07f84},{1281,0x549535cb224c0},{1281,0x687fe0e547d01},{1281,0x6cb0c6372349d},{1281,0x6fd4d575270d2},{1281,0x74f4b74cc5ebf},{1281,0x8b13f4c3a2122},{1281,0x8d28a7b4a4016},{1281,0xab722f8984a60},{1281,0xb5d8df7511c50},{1281,0xbce1505cb883f},{1281,0xc90094f9f6843},{1281,0xd047c9b4718ec},{1281,0xd5ab4c9fc9a7c},{1281,0xd67a35535c640},{1281,0xe0dca331bec19},{1281,0xe938492ee4320},{1281,0xf1717caf0bf46},
{1282,0x8b25a8c8db4b},{1282,0xce54f7cc6091},{1282,0xf5cea4297ad9},{1282,0x12b2321d9caa0},{1282,0x15a9219bafa83},{1282,0x1705fdcefcc5b},{1282,0x195cc1d3a6a2e},{1282,0x1a6659f2b61ed},{1282,0x1f2e53468f6d7},{1282,0x1f4dc0b530434},{1282,0x2a07291abf911},{1282,0x3dcf9de19cf89},{1282,0x47f7fe9c6cb43},{1282,0x549535cb224c0},{1282,0x5927c345177b0},{1282,0x60407977d73dd},{1282,0x687fe0e547d01},{1282,0x6cb0c6372349d},{1282,0x74f4b74cc5ebf},{1282,0x8b13f4c3a2122},{1282,0x97e92c9778d73},{1282,0x9e893d3c89f65},{1282,0xa5932d875c866},{1282,0xb5d8df7511c50},{1282,0xca9bade45b94a},{1282,0xd047c9b4718ec},{1282,0xd5ab4c9fc9a7c},{1282,0xd67a35535c640},{1282,0xda8e600f25b7e},{1282,0xdea28acaef0bc},{1282,0xe0dca331bec19},{1282,0xf1717caf0bf46},
{1283,0x4be426bf78bd},{1283,0x8b25a8c8db4b},{1283,0x111fc461e992f},{1283,0x12b2321d9caa0},{1283,0x145b7e285bf98},{1283,0x195cc1d3a6a2e},{1283,0x1a6659f2b61ed},{1283,0x1b1a288ac6199},{1283,0x1f2e53468f6d7},{1283,0x258b0fe3de08d},{1283,0x3dcf9de19cf89},{1283,0x4dd17e3ec8256},{1283,0x58a8bc53898aa},{1283,0x5927c345177b0},{1283,0x60407977d73dd},{1283,0x687fe0e547d01},{1283,0x6cb0c6372349d},{1283,0x8a83381ba6b7d},{1283,0x8de9f4077d023},{1283,0x8f562089addd1},{1283,0x97e92c9778d73},{1283,0x998b55482741b},{1283,0x9af5e30bd072c},{1283,0x9e893d3c89f65},{1283,0x9fc8329890c05},{1283,0xa5932d875c866},{1283,0xb8cdc9d451455},{1283,0xc004ca9a9ff0c},{1283,0xc734f1f8854a4},{1283,0xca9bade45b94a},{1283,0xd5ab4c9fc9a7c},{1283,0xd6aa95e9da336},{1283,0xda8e600f25b7e},{1283,0xdea28acaef0bc},{1283,0xf1717caf0bf46},{1283,0xf56f293026690},
{1284,0x8b25a8c8db4b},{1284,0x111fc461e992f},{1284,0x12d32257d4b82},{1284,0x150c5c8d94865},{1284,0x195cc1d3a6a2e},{1284,0x1a6659f2b61ed},{1284,0x1b1a288ac6199},{1284,0x1d243de8aac38},{1284,0x1d9a18bfc6d88},{1284,0x1f2e53468f6d7},{1284,0x258b0fe3de08d},{1284,0x3dcf9de19cf89},{1284,0x4dd17e3ec8256},{1284,0x505e8b2fa8dd3},{1284,0x569ef90f55eb5},{1284,0x584f8253c00d8},{1284,0x5927c345177b0},{1284,0x687fe0e547d01},{1284,0x7b32067b73b18},{1284,0x814361483e949},{1284,0x8a83381ba6b7d},{1284,0x8de9f4077d023},{1284,0x9304ebe7b9427},{1284,0x97e92c9778d73},{1284,0x998b55482741b},{1284,0x9e893d3c89f65},{1284,0xa5932d875c866},{1284,0xb8cdc9d451455},{1284,0xc004ca9a9ff0c},{1284,0xc734f1f8854a4},{1284,0xca9bade45b94a},{1284,0xcdba557bb2777},{1284,0xd6aa95e9da336},{1284,0xda8e600f25b7e},{1284,0xdea28acaef0bc},{1284,0xe3a01cc6a0f4b},{1284,0xf1717caf0bf46},{1284,0xfec633ed014cf},
{1285,0x1e18c6ba1f1},{1285,0xaabbe3904d3},{1285,0xf13744b18fd8},{1285,0x14fbe871181bc},{1285,0x150c5c8d94865},{1285,0x195cc1d3a6a2e},{1285,0x1a6659f2b61ed},{1285,0x1d243de8aac38},{1285,0x1f2e53468f6d7},{1285,0x21929451d270b},{1285,0x258b0fe3de08d},{1285,0x339328f17e10d},{1285,0x3dcf9de19cf89},{1285,0x505e8b2fa8dd3},{1285,0x5927c345177b0},{1285,0x5c47fde5cba5a},{1285,0x5ed329d9f7994},{1285,0x7bd94efbe83db},{1285,0x9304ebe7b9427},{1285,0x97e92c9778d73},{1285,0x998b55482741b},{1285,0x9e893d3c89f65},{1285,0xa2e6da2fe7a31},{1285,0xbae023d6591e1},{1285,0xbe1ee1b89b5ce},{1285,0xc004ca9a9ff0c},{1285,0xc114ad0195758},{1285,0xc734f1f8854a4},{1285,0xca9bade45b94a},{1285,0xcdba557bb2777},{1285,0xd4701ff577ba1},{1285,0xd6aa95e9da336},{1285,0xda8e600f25b7e},{1285,0xdea28acaef0bc},{1285,0xe1f7d2a5f4083},{1285,0xe9e53236cef25},{1285,0xef364a1b1909e},{1285,0xf88dd0c77d4bc},{1285,0xfec633ed014cf},
{1286,0x9712c629786},{1286,0xaabbe3904d3},{1286,0x195cc1d3a6a2e},{1286,0x1a6659f2b61ed},{1286,0x1f2e53468f6d7},{1286,0x21929451d270b},{1286,0x258b0fe3de08d},{1286,0x25a1360ae1b92},{1286,0x339328f17e10d},{1286,0x3dcf9de19cf89},{1286,0x407470a3418d0},{1286,0x678c1f72dc772},{1286,0x77a674e6c2741},{1286,0x79cf399e0393c},{1286,0x8f0c7055adaa5},{1286,0x93040de93e71c},{1286,0x998b55482741b},{1286,0x9e893d3c89f65},{1286,0xa3b7c133b2163},{1286,0xb25bde7abba90},{1286,0xbdc193f70da4f},{1286,0xc004ca9a9ff0c},{1286,0xc114ad0195758},{1286,0xc734f1f8854a4},{1286,0xca64bbd13ac82},{1286,0xca9bade45b94a},{1286,0xcdba557bb2777},{1286,0xd6aa95e9da336},{1286,0xdea28acaef0bc},{1286,0xe1f7d2a5f4083},{1286,0xe2f07002799ea},{1286,0xe9ce39cdc0707},{1286,0xe9e53236cef25},{1286,0xebeef57b0291a},{1286,0xf88dd0c77d4bc},
{1287,0x315c645d639f},{1287,0x4138b5e17dcd},{1287,0x6341d50dba24},{1287,0xadb8c389269c},{1287,0x195cc1d3a6a2e},{1287,0x258b0fe3de08d},{1287,0x25a1360ae1b92},{1287,0x2ce8993b7417f},{1287,0x344efcd600f79},{1287,0x396579be1801a},{1287,0x3dcf9de19cf89},{1287,0x40c5453af66f4},{1287,0x505e8b2fa8dd3},{1287,0x59725db272f7f},{1287,0x678c1f72dc772},{1287,0x6f2aad4094c1d},{1287,0x6f9ccec88c421},{1287,0x79cf399e0393c},{1287,0x93040de93e71c},{1287,0x93c87506be33f},{1287,0x998b55482741b},{1287,0xaba6749f9a735},{1287,0xac38e234794fc},{1287,0xad1c7ff0e1de0},{1287,0xae6362e8b010e},{1287,0xc734f1f8854a4},{1287,0xcdba557bb2777},{1287,0xd6aa95e9da336},{1287,0xd9bc0c70020e3},{1287,0xdccd82f629e90},{1287,0xdea28acaef0bc},{1287,0xe194bf55ec703},{1287,0xe1f7d2a5f4083},{1287,0xe7db6ef29b530},{1287,0xe9e53236cef25},{1287,0xed11480eb4de0},{1287,0xf1b91efc7bebf},{1287,0xf20c3f479d6f9},{1287,0xf88dd0c77d4bc},
{1288,0x315c645d639f},{1288,0x4138b5e17dcd},{1288,0x5d0ea6bd92dd},{1288,0x6341d50dba24},{1288,0xadb8c389269c},{1288,0x3b4fc9defaba5},{1288,0x44e20276e06f6},{1288,0x505e8b2fa8dd3},{1288,0x5197fbdd05297},{1288,0x678c1f72dc772},{1288,0x6f2aad4094c1d},{1288,0x877035f0b4101},{1288,0x88f2176162c6d},{1288,0x93040de93e71c},{1288,0xa298e4f3e0da8},{1288,0xaba6749f9a735},{1288,0xac87efbbb1da1},{1288,0xad1c7ff0e1de0},{1288,0xb3a29c72cab91},{1288,0xba28b8f4b3942},{1288,0xbe0edc3231442},{1288,0xc948fdf394fd5},{1288,0xcdba557bb2777},{1288,0xd6aa95e9da336},{1288,0xd6abd2dcbca50},{1288,0xd9bc0c70020e3},{1288,0xdccd82f629e90},{1288,0xdd65cec533aab},{1288,0xdea28acaef0bc},{1288,0xe194bf55ec703},{1288,0xe1f7d2a5f4083},{1288,0xe7db6ef29b530},{1288,0xe9e53236cef25},{1288,0xed11480eb4de0},{1288,0xf583aa0dc17d4},{1288,0xf88dd0c77d4bc},{1288,0xfc3d0f9c9f8c2},
{1289,0x5d0ea6bd92dd},{1289,0xadb8c389269c},{1289,0x158e5605f6f83},{1289,0x1e9be5b1b0910},{1289,0x306cc8f87550e},{1289,0x3b4fc9defaba5},{1289,0x44e20276e06f6},{1289,0x505e8b2fa8dd3},{1289,0x5bdb13e8714af},{1289,0x609a6552c8b5c},{1289,0x62217cc186733},{1289,0x6f2aad4094c1d},{1289,0x838c4dea98faf},{1289,0x877035f0b4101},{1289,0x93040de93e71c},{1289,0x9eb7e99f2edd9},{1289,0xa298e4f3e0da8},{1289,0xaba6749f9a735},{1289,0xad1c7ff0e1de0},{1289,0xb3a29c72cab91},{1289,0xb4b4044b540c2},{1289,0xba28b8f4b3942},{1289,0xc9475479dfc07},{1289,0xcdba557bb2777},{1289,0xd4412afc57006},{1289,0xd6abd2dcbca50},{1289,0xd9bc0c70020e3},{1289,0xdd65cec533aab},{1289,0xdea28acaef0bc},{1289,0xe7db6ef29b530},{1289,0xed11480eb4de0},{1289,0xeda4f440b2981},{1289,0xf583aa0dc17d4},{1289,0xfc3d0f9c9f8c2},
{1290,0xc80c65a3d5f6},{1290,0x1293e920f1fe7},{1290,0x1f295a0b92b88},{1290,0x2373979b81a61},{1290,0x25af768d7b939},{1290,0x2db9e43d106af},{1290,0x3b4fc9defaba5},{1290,0x43db37d74bc87},{1290,0x5a2c679614140},{1290,0x5bdb13e8714af},{1290,0x609a6552c8b5c},{1290,0x6f2aad4094c1d},{1290,0x71ccf60b07a68},{1290,0x838c4dea98faf},{1290,0x87bed82d9e020},{1290,0x8a85eb277e644},{1290,0x93040de93e71c},{1290,0x9eb7e99f2edd9},{1290,0x9f9e780edbe0c},{1290,0xa66aa5ef16fc2},{1290,0xb3a29c72cab91},{1290,0xb4b4044b540c2},{1290,0xc9475479dfc07},{1290,0xd4412afc57006},{1290,0xd9bc0c70020e3},{1290,0xed11480eb4de0},{1290,0xeda4f440b2981},{1290,0xf583aa0dc17d4},
{1291,0xc80c65a3d5f6},{1291,0xde1593369d1b},{1291,0x121d2107c1026},{1291,0x2db9e43d106af},{1291,0x32bbaf914d49b},{1291,0x342acd09310ac},{1291,0x3b4fc9defaba5},{1291,0x5a2c679614140},{1291,0x5bdb13e8714af},{1291,0x609a6552c8b5c},{1291,0x6f2aad4094c1d},{1291,0x71ccf60b07a68},{1291,0x801c6eb0d24b4},{1291,0x838c4dea98faf},{1291,0x877474a156897},{1291,0x8a85eb277e644},{1291,0x8d9761ada63f1},{1291,0x93040de93e71c},{1291,0x9f9e780edbe0c},{1291,0xaf6f1f0cde424},{1291,0xb3a29c72cab91},{1291,0xbbdf405a79202},{1291,0xd153dac5db442},{1291,0xd71f65ec1e827},{1291,0xd95eb798218af},{1291,0xed11480eb4de0},{1291,0xeda4f440b2981},{1291,0xfa9c2f65724bd},
{1292,0x2d0af664c22f},{1292,0xc80c65a3d5f6},{1292,0x1559b88845bce},{1292,0x2db9e43d106af},{1292,0x335696f828b9b},{1292,0x342acd09310ac},{1292,0x3b4fc9defaba5},{1292,0x432e7ea8728ef},{1292,0x52fbe18a1c58a},{1292,0x58a31913d4b2f},{1292,0x609a6552c8b5c},{1292,0x60dc438478459},{1292,0x71ccf60b07a68},{1292,0x732f26020c016},{1292,0x7b2e9a88b71e3},{1292,0x838c4dea98faf},{1292,0x8a85eb277e644},{1292,0x8fdd735fd7160},{1292,0x93040de93e71c},{1292,0x99dd3bc645aa5},{1292,0xa7d808d1eac8a},{1292,0xaf6f1f0cde424},{1292,0xb3a29c72cab91},{1292,0xbbdf405a79202},{1292,0xd71f65ec1e827},{1292,0xed11480eb4de0},{1292,0xeda4f440b2981},{1292,0xeed3ce1f5d4bb},{1292,0xf41612e38970c},
{1293,0x232ad1427ca3},{1293,0xc80c65a3d5f6},{1293,0xde1593369d1b},{1293,0x1559b88845bce},{1293,0x184549d1ae46f},{1293,0x2254edcff6c93},{1293,0x226c684c87261},{1293,0x26bde3eb4fd92},{1293,0x2db9e43d106af},{1293,0x342acd09310ac},{1293,0x3b4fc9defaba5},{1293,0x3dd1580d9a05f},{1293,0x42a62384e681e},{1293,0x432e7ea8728ef},{1293,0x45e931c5daef7},{1293,0x52fbe18a1c58a},{1293,0x58a31913d4b2f},{1293,0x609a6552c8b5c},{1293,0x6e17b37f36d6f},{1293,0x71ccf60b07a68},{1293,0x8a85eb277e644},{1293,0x8fdd735fd7160},{1293,0x93040de93e71c},{1293,0x93cdb48b9848b},{1293,0x94d205cd1eba9},{1293,0x97bdf5b7597b6},{1293,0xa7d808d1eac8a},{1293,0xae7582c15d42f},{1293,0xaf5f7cbde0ab8},{1293,0xb128677cc228e},{1293,0xb3a29c72cab91},{1293,0xbbdf405a79202},{1293,0xc561012f749dc},{1293,0xd71f65ec1e827},{1293,0xd73a7e4162c29},{1293,0xdd2554586c8ee},{1293,0xdec0d3c799b75},{1293,0xeed3ce1f5d4bb},
{1294,0x5f12e47d015f},{1294,0xc80c65a3d5f6},{1294,0xde1593369d1b},{1294,0x1559b88845bce},{1294,0x2254edcff6c93},{1294,0x24c242c8bb63d},{1294,0x29cf5a7177b3f},{1294,0x2b4b9aaadc186},{1294,0x2ca6bb09c4882},{1294,0x2db9e43d106af},{1294,0x342acd09310ac},{1294,0x38743172c17cf},{1294,0x3d09ff6785fd1},{1294,0x3dd1580d9a05f},{1294,0x42a62384e681e},{1294,0x432e7ea8728ef},{1294,0x4de8cbde23a0f},{1294,0x58a1e789671eb},{1294,0x58a31913d4b2f},{1294,0x609a6552c8b5c},{1294,0x6a3f61edd7a86},{1294,0x87fcf10854b0a},{1294,0x890bb55fe1388},{1294,0x8a85eb277e644},{1294,0x93cdb48b9848b},{1294,0x9edfdcd59aa25},{1294,0xa7d808d1eac8a},{1294,0xa90fb94a93771},{1294,0xae7582c15d42f},{1294,0xb3a29c72cab91},{1294,0xb68e30f38bf4c},{1294,0xbbdf405a79202},{1294,0xc561012f749dc},{1294,0xce40338dc9902},{1294,0xd71f65ec1e827},{1294,0xe42b9eeff0389},{1294,0xeb3c7bdd85149},
{1295,0x5f12e47d015f},{1295,0xb20b933e927d},{1295,0xd8afc9bfd34f},{1295,0xda573680ae96},{1295,0xde1593369d1b},{1295,0xf549d5f5823c},{1295,0x1559b88845bce},{1295,0x1a772e52ba89f},{1295,0x1d0dfda880905},{1295,0x2254edcff6c93},{1295,0x24c242c8bb63d},{1295,0x29cf5a7177b3f},{1295,0x2c7687e8f6374},{1295,0x2ca6bb09c4882},{1295,0x33170ad7e8f3f},{1295,0x342acd09310ac},{1295,0x38743172c17cf},{1295,0x3bdf12296bde3},{1295,0x3dd1580d9a05f},{1295,0x407b99ed0da90},{1295,0x42a62384e681e},{1295,0x432e7ea8728ef},{1295,0x436fca274058d},{1295,0x488ba5434b17f},{1295,0x4ec864242fe1c},{1295,0x609a6552c8b5c},{1295,0x6a3f61edd7a86},{1295,0x78d200b4e7e8f},{1295,0x8135804b7d4d7},{1295,0x87fcf10854b0a},{1295,0x890bb55fe1388},{1295,0x8a85eb277e644},{1295,0x93cdb48b9848b},{1295,0x9bae36e31aae1},{1295,0xa7d808d1eac8a},{1295,0xae7582c15d42f},{1295,0xb3a29c72cab91},{1295,0xb68e30f38bf4c},{1295,0xbe8dd3a7e564a},{1295,0xce40338dc9902},{1295,0xe42b9eeff0389},{1295,0xe570afb5fde8e},{1295,0xeb3c7bdd85149},
{1296,0x5f12e47d015f},{1296,0xd8afc9bfd34f},{1296,0xda573680ae96},{1296,0x183899ccb0a88},{1296,0x2254edcff6c93},{1296,0x285cbda237e1f},{1296,0x2ca6bb09c4882},{1296,0x342acd09310ac},{1296,0x38743172c17cf},{1296,0x3b22c4c02dc17},{1296,0x3dd1580d9a05f},{1296,0x407b99ed0da90},{1296,0x407feb5b064a7},{1296,0x42a62384e681e},{1296,0x432e7ea8728ef},{1296,0x4b730e7bce184},{1296,0x4ec864242fe1c},{1296,0x567e114f82951},{1296,0x5ab026aa572c1},{1296,0x5e003faead3bf},{1296,0x609a6552c8b5c},{1296,0x6a3f61edd7a86},{1296,0x6b9ebf596c50c},{1296,0x78d200b4e7e8f},{1296,0x7b84e5704ccee},{1296,0x8135804b7d4d7},{1296,0x890bb55fe1388},{1296,0x8a85eb277e644},{1296,0x93cdb48b9848b},{1296,0xa7805bd381593},{1296,0xa7bad9eca36ec},{1296,0xa7d808d1eac8a},{1296,0xb68e30f38bf4c},{1296,0xbbfca9bdc440a},{1296,0xbd368a012f426},{1296,0xc310c298a6a8f},{1296,0xc6a45c43f458c},{1296,0xce40338dc9902},{1296,0xe41904cdd29cf},{1296,0xe42b9eeff0389},{1296,0xf4c58d2eefb17},
{1297,0x5724e69ce832},{1297,0xda573680ae96},{1297,0x285cbda237e1f},{1297,0x342acd09310ac},{1297,0x35c59e2555387},{1297,0x3b22c4c02dc17},{1297,0x3c7a0e66e3e3b},{1297,0x3dd1580d9a05f},{1297,0x3e272a77478e8},{1297,0x3e7cfce0f5171},{1297,0x3f28a1b450283},{1297,0x407b99ed0da90},{1297,0x407feb5b064a7},{1297,0x432e7ea8728ef},{1297,0x50975f2b8fe57},{1297,0x5159af8044462},{1297,0x51d0f44c0239c},{1297,0x5ab026aa572c1},{1297,0x5ad93834d2e05},{1297,0x5e003faead3bf},{1297,0x6a3f61edd7a86},{1297,0x79a58ba6dc707},{1297,0x7b84e5704ccee},{1297,0x8135804b7d4d7},{1297,0x890bb55fe1388},{1297,0x8a85eb277e644},{1297,0x9871df18e6009},{1297,0xa5b01b605557a},{1297,0xa7805bd381593},{1297,0xa7bad9eca36ec},{1297,0xa7d808d1eac8a},{1297,0xb09a0c4af8612},{1297,0xb68e30f38bf4c},{1297,0xbbfca9bdc440a},{1297,0xbd368a012f426},{1297,0xce40338dc9902},{1297,0xd3090055266e3},{1297,0xd6e4abd7b53a0},{1297,0xe41904cdd29cf},{1297,0xe42b9eeff0389},{1297,0xf1977c76cb1aa},{1297,0xf4c58d2eefb17},{1297,0xfa06874066693},
{1298,0x53139c61dcb9},{1298,0xda573680ae96},{1298,0x125cb0137703f},{1298,0x17f7ca1f2c23a},{1298,0x1af3dd1f1a8b7},{1298,0x1f63d824b4ce1},{1298,0x22f6f42b6e161},{1298,0x245081f6af123},{1298,0x2d602ef849c38},{1298,0x2f112de3c68d3},{1298,0x342acd09310ac},{1298,0x346d60b17ccc8},{1298,0x35c59e2555387},{1298,0x3c7a0e66e3e3b},{1298,0x3d25b33a3ef4d},{1298,0x3dd1580d9a05f},{1298,0x3e272a77478e8},{1298,0x3e7cfce0f5171},{1298,0x3f28a1b450283},{1298,0x3fd44687ab395},{1298,0x407b99ed0da90},{1298,0x432e7ea8728ef},{1298,0x49e2eeea013a3},{1298,0x558f242a75bb7},{1298,0x5ab026aa572c1},{1298,0x5e003faead3bf},{1298,0x64568acf62f96},{1298,0x69833a4bbfc39},{1298,0x72b2d8344eb91},{1298,0x776e3afb70aed},{1298,0x79a58ba6dc707},{1298,0x7b84e5704ccee},{1298,0x7dbe195ca1b36},{1298,0x8135804b7d4d7},{1298,0x843e10734fa56},{1298,0x890bb55fe1388},{1298,0x8a85eb277e644},{1298,0x9871df18e6009},{1298,0x98e7c64b3ad74},{1298,0x99098b31ec61d},{1298,0xa10ca23e3fec7},{1298,0xa7bad9eca36ec},{1298,0xb0b54b7f99cf2},{1298,0xb0f84fb720a5a},{1298,0xbd8c5c6adccaf},{1298,0xce40338dc9902},{1298,0xd3090055266e3},{1298,0xd6e4abd7b53a0},{1298,0xe41904cdd29cf},{1298,0xe42b9eeff0389},{1298,0xef3dc739f2923},{1298,0xf4c58d2eefb17},
{1299,0x53139c61dcb9},{1299,0xda573680ae96},{1299,0x150efd38bf352},{1299,0x1af3dd1f1a8b7},{1299,0x1f63d824b4ce1},{1299,0x2cc143387cbf0},{1299,0x2d602ef849c38},{1299,0x342acd09310ac},{1299,0x391fd6461c8e1},{1299,0x3c7a0e66e3e3b},{1299,0x3d7b85a3ec7d6},{1299,0x3dd1580d9a05f},{1299,0x3e272a77478e8},{1299,0x3e7cfce0f5171},{1299,0x3ed2cf4aa29fa},{1299,0x3fd44687ab395},{1299,0x407b99ed0da90},{1299,0x432e7ea8728ef},{1299,0x513edaa35543f},{1299,0x558f242a75bb7},{1299,0x5e003faead3bf},{1299,0x64568acf62f96},{1299,0x72b2d8344eb91},{1299,0x776e3afb70aed},{1299,0x7b84e5704ccee},{1299,0x7dbe195ca1b36},{1299,0x7f8670f676943},{1299,0x8135804b7d4d7},{1299,0x843e10734fa56},{1299,0x890bb55fe1388},{1299,0x8a85eb277e644},{1299,0x9d9d9b538c19b},{1299,0xb0b54b7f99cf2},{1299,0xb0f84fb720a5a},{1299,0xc84c524ab5eaf},{1299,0xd3090055266e3},{1299,0xd5a9bd5e7ddbe},{1299,0xed5c035e3b65b},{1299,0xfd140c2fd0a4e},
{1300,0x53139c61dcb9},{1300,0xd7bda25d3ad1},{1300,0x1af3dd1f1a8b7},{1300,0x28b58d3f09836},{1300,0x2bb6f5c2ff379},{1300,0x2d602ef849c38},{1300,0x3accf2568038e},{1300,0x3c7a0e66e3e3b},{1300,0x3dd1580d9a05f},{1300,0x3e272a77478e8},{1300,0x3e7cfce0f5171},{1300,0x3fd44687ab395},{1300,0x402fce9be95fd},{1300,0x418162980ee42},{1300,0x4d3d270ac88fd},{1300,0x51d0f44c0239c},{1300,0x558f242a75bb7},{1300,0x56fb61c1fd063},{1300,0x5a7aaac2eb956},{1300,0x5e003faead3bf},{1300,0x72b2d8344eb91},{1300,0x73d81537b55c8},{1300,0x776e3afb70aed},{1300,0x7b84e5704ccee},{1300,0x7dbe195ca1b36},{1300,0x8135804b7d4d7},{1300,0x843e10734fa56},{1300,0x890bb55fe1388},{1300,0x8a85eb277e644},{1300,0x9d9d9b538c19b},{1300,0xa2ddec44ba93a},{1300,0xa5b01b605557a},{1300,0xa645315f02c83},{1300,0xa7797b60037db},{1300,0xab6f9ed4fd94a},{1300,0xc84c524ab5eaf},{1300,0xe961dd80b8eda},{1300,0xf4784bfd1b660},{1300,0xf64af8f3259b3},{1300,0xfab96e720356a},{1300,0xfd140c2fd0a4e},
{1301,0x53139c61dcb9},{1301,0xa30c47b35df5},{1301,0xbcb10f3ddd67},{1301,0xd7bda25d3ad1},{1301,0x1800d969bd67e},{1301,0x2796d5c281f28},{1301,0x2bb6f5c2ff379},{1301,0x2d602ef849c38},{1301,0x34188214f18da},{1301,0x3c7a0e66e3e3b},{1301,0x3e272a77478e8},{1301,0x3fd44687ab395},{1301,0x402fce9be95fd},{1301,0x44db9ab8d639c},{1301,0x4d3d270ac88fd},{1301,0x558f242a75bb7},{1301,0x56fb61c1fd063},{1301,0x5e003faead3bf},{1301,0x685ec3ce1557c},{1301,0x70fa17f44aacb},{1301,0x72b2d8344eb91},{1301,0x776e3afb70aed},{1301,0x7b84e5704ccee},{1301,0x7dbe195ca1b36},{1301,0x8135804b7d4d7},{1301,0x843e10734fa56},{1301,0x890bb55fe1388},{1301,0x8a85eb277e644},{1301,0x9d9d9b538c19b},{1301,0xb1cfbae224989},{1301,0xb936c9704d131},{1301,0xc84c524ab5eaf},{1301,0xca958a0eaf5d8},{1301,0xca95ea925ccf5},{1301,0xcc65d1199c7d3},{1301,0xd9fbb3c7b4259},{1301,0xdd254b187ff3a},{1301,0xe961dd80b8eda},{1301,0xf64af8f3259b3},{1301,0xf8c80739bdb5b},{1301,0xfd140c2fd0a4e},
{1302,0xa30c47b35df5},{1302,0xbcb10f3ddd67},{1302,0x21e912d23aac4},{1302,0x25817a581d148},{1302,0x2d602ef849c38},{1302,0x30e6c7d4e3480},{1302,0x34188214f18da},{1302,0x3c7a0e66e3e3b},{1302,0x3e272a77478e8},{1302,0x402fce9be95fd},{1302,0x44db9ab8d639c},{1302,0x4db7757d1ba78},{1302,0x5e003faead3bf},{1302,0x70fa17f44aacb},{1302,0x72b2d8344eb91},{1302,0x77f194069beec},{1302,0x7b84e5704ccee},{1302,0x8135804b7d4d7},{1302,0x843e10734fa56},{1302,0x87e7fd4868ea4},{1302,0x8cfce32a9c3d4},{1302,0x8da63ac7e3c11},{1302,0x9d9d9b538c19b},{1302,0xa22bb2901c35f},{1302,0xa6cda8b28ce55},{1302,0xb47ee893ba2a2},{1302,0xc00b1d165aad2},{1302,0xc84c524ab5eaf},{1302,0xcc65d1199c7d3},{1302,0xd63bf89d5311c},{1302,0xd9fbb3c7b4259},{1302,0xdc72abcad1fe9},{1302,0xdccf78aed26b1},{1302,0xdd254b187ff3a},{1302,0xe961dd80b8eda},{1302,0xf1fdf980ac151},{1302,0xf64af8f3259b3},{1302,0xf69fefa31cc46},{1302,0xfe6aedcf7f09b},
{1303,0xbbb3c4776d7},{1303,0x78e111c3556c},{1303,0xa30c47b35df5},{1303,0x106d07164e85d},{1303,0x1269ca2c0f5f1},{1303,0x25817a581d148},{1303,0x26bcf659ac010},{1303,0x2bb054916884c},{1303,0x2d602ef849c38},{1303,0x30e6c7d4e3480},{1303,0x34188214f18da},{1303,0x3c7a0e66e3e3b},{1303,0x3e272a77478e8},{1303,0x402fce9be95fd},{1303,0x4db7757d1ba78},{1303,0x5e003faead3bf},{1303,0x6111dbe54f229},{1303,0x6943167b28e73},{1303,0x72b2d8344eb91},{1303,0x8b5519aa50023},{1303,0x9d9d9b538c19b},{1303,0x9f4d5e35b434c},{1303,0xa22bb2901c35f},{1303,0xa645315f02c83},{1303,0xb39d425c93c90},{1303,0xb47ee893ba2a2},{1303,0xc84c524ab5eaf},{1303,0xc95afb9ec4492},{1303,0xcc65d1199c7d3},{1303,0xd9fbb3c7b4259},{1303,0xdbb7787be046e},{1303,0xdccf78aed26b1},{1303,0xe961dd80b8eda},{1303,0xf64af8f3259b3},{1303,0xf69fefa31cc46},
{1304,0x78e111c3556c},{1304,0xa30c47b35df5},{1304,0x106d07164e85d},{1304,0x1269ca2c0f5f1},{1304,0x1b525264b956e},{1304,0x2c7e88c123626},{1304,0x2d602ef849c38},{1304,0x30e6c7d4e3480},{1304,0x34188214f18da},{1304,0x3c7a0e66e3e3b},{1304,0x3e272a77478e8},{1304,0x402fce9be95fd},{1304,0x442f4d8e753a4},{1304,0x4db7757d1ba78},{1304,0x5803b2bfcdbc6},{1304,0x59dcecc2241f2},{1304,0x6a635786c9575},{1304,0x6e696c17f5818},{1304,0x707eb8aa6ec64},{1304,0x771e6903883cd},{1304,0x8b01e3e3e8c94},{1304,0x8ca4c38adb276},{1304,0x9f4d5e35b434c},{1304,0xab9e2ef6168ae},{1304,0xb47ee893ba2a2},{1304,0xb590ac25089ea},{1304,0xbac4ab6983a34},{1304,0xbd4f66bb39f56},{1304,0xc3aad3b8fb68e},{1304,0xc77c5367e02cb},{1304,0xc95afb9ec4492},{1304,0xcc65d1199c7d3},{1304,0xcd389df15d57e},{1304,0xd9fbb3c7b4259},{1304,0xdbb7787be046e},{1304,0xdccf78aed26b1},{1304,0xe38f9fc5cfe9e},{1304,0xe961dd80b8eda},{1304,0xed7a7acba5cff},{1304,0xed929152b7173},{1304,0xf64af8f3259b3},
{1305,0x27269a067067},{1305,0xa30c47b35df5},{1305,0x106d07164e85d},{1305,0x15311b0da1bc7},{1305,0x2d602ef849c38},{1305,0x30e6c7d4e3480},{1305,0x3274280201a89},{1305,0x34188214f18da},{1305,0x3e272a77478e8},{1305,0x404cf18de8101},{1305,0x4db7757d1ba78},{1305,0x4eef73d15c44e},{1305,0x5803b2bfcdbc6},{1305,0x6a635786c9575},{1305,0x6e696c17f5818},{1305,0x707eb8aa6ec64},{1305,0x771e6903883cd},{1305,0x79dbeb4e28169},{1305,0x83c1130b05ebd},{1305,0x8ca4c38adb276},{1305,0x8d2452aace1ad},{1305,0x98a38aa175c8b},{1305,0x9d679e98c8ff5},{1305,0x9f4d5e35b434c},{1305,0xa6dbbd5f3c077},{1305,0xad0904cf9bec0},{1305,0xb590ac25089ea},{1305,0xc01cd993145b6},{1305,0xc3aad3b8fb68e},{1305,0xc95afb9ec4492},{1305,0xcc65d1199c7d3},{1305,0xd5edf90842ea7},{1305,0xd9fbb3c7b4259},{1305,0xdccf78aed26b1},{1305,0xe961dd80b8eda},{1305,0xf64af8f3259b3},{1305,0xfb64039a6ffb0},
{1306,0x27269a067067},{1306,0xa30c47b35df5},{1306,0xd058ba53e146},{1306,0x1033edabef16d},{1306,0x106d07164e85d},{1306,0x163716dca84e5},{1306,0x1806f22df8ac3},{1306,0x30e6c7d4e3480},{1306,0x3274280201a89},{1306,0x3e272a77478e8},{1306,0x3e27d164d3043},{1306,0x404cf18de8101},{1306,0x41cd4392cb9ef},{1306,0x4eef73d15c44e},{1306,0x529d1ec45e4a2},{1306,0x6a635786c9575},{1306,0x707eb8aa6ec64},{1306,0x70cb76139f1cd},{1306,0x732d800f48b82},{1306,0x745984f78b5f9},{1306,0x79dbeb4e28169},{1306,0x8d2452aace1ad},{1306,0x93918a3331ace},{1306,0x98a38aa175c8b},{1306,0x9d679e98c8ff5},{1306,0x9f4d5e35b434c},{1306,0xa6dbbd5f3c077},{1306,0xb24ac909da375},{1306,0xb3e6d81c8fc7a},{1306,0xbcbfbcdf9a027},{1306,0xc3aad3b8fb68e},{1306,0xc95afb9ec4492},{1306,0xcc65d1199c7d3},{1306,0xdccf78aed26b1},{1306,0xf29f11fac5034},{1306,0xf64af8f3259b3},{1306,0xf87f187d058e0},{1306,0xfb64039a6ffb0},
{1307,0x27269a067067},{1307,0xd058ba53e146},{1307,0x1033edabef16d},{1307,0x106d07164e85d},{1307,0x1806f22df8ac3},{1307,0x1c988c8bc082d},{1307,0x270bd55a0fbc2},{1307,0x2e43bb9f8d2c5},{1307,0x30e6c7d4e3480},{1307,0x3274280201a89},{1307,0x35e311a87b966},{1307,0x3bade08810193},{1307,0x3e272a77478e8},{1307,0x404cf18de8101},{1307,0x413524da6101c},{1307,0x41cd4392cb9ef},{1307,0x4e7ea0b5c9145},{1307,0x4eef73d15c44e},{1307,0x6a635786c9575},{1307,0x6fa0f1279cb8c},{1307,0x707eb8aa6ec64},{1307,0x732d800f48b82},{1307,0x73945776920bc},{1307,0x8d2452aace1ad},{1307,0x93918a3331ace},{1307,0xa2c7d3e8558dd},{1307,0xb077ee7615d9d},{1307,0xb24ac909da375},{1307,0xbbc8aa050ed11},{1307,0xbcbfbcdf9a027},{1307,0xc1a27eb6777ee},{1307,0xc3aad3b8fb68e},{1307,0xc6ac68515804a},{1307,0xc9adfce9b4a06},{1307,0xca03c71df2e1e},{1307,0xce4d8f7d3333c},{1307,0xcfb1261a6dd7e},{1307,0xe5edef8c02580},{1307,0xedc25cdce2fb9},{1307,0xf64af8f3259b3},{1307,0xfb64039a6ffb0},
{1308,0x27269a067067},{1308,0xd058ba53e146},{1308,0x101f07813e5e7},{1308,0x1033edabef16d},{1308,0x1c988c8bc082d},{1308,0x30e6c7d4e3480},{1308,0x3274280201a89},{1308,0x35994c611fdb8},{1308,0x35e311a87b966},{1308,0x3e272a77478e8},{1308,0x404cf18de8101},{1308,0x41cd4392cb9ef},{1308,0x4e7ea0b5c9145},{1308,0x611f07f5fd817},{1308,0x6a635786c9575},{1308,0x732d800f48b82},{1308,0x7cf83db4f0eaa},{1308,0x8cd573aa6a5fb},{1308,0x8d2452aace1ad},{1308,0x93918a3331ace},{1308,0x9e98a3969dcd0},{1308,0xa2c7d3e8558dd},{1308,0xa551625d495fd},{1308,0xb077ee7615d9d},{1308,0xb24ac909da375},{1308,0xbcbfbcdf9a027},{1308,0xc6ac68515804a},{1308,0xca03c71df2e1e},{1308,0xce4d8f7d3333c},{1308,0xcfb1261a6dd7e},{1308,0xda232347e6032},{1308,0xe9d173e8a376d},{1308,0xef79d1b01ff27},{1308,0xfb64039a6ffb0},
{1309,0x27269a067067},{1309,0x3a58276bc3a1},{1309,0xbac4960a62c2},{1309,0xd058ba53e146},{1309,0x101f07813e5e7},{1309,0x1033edabef16d},{1309,0x10f452d2063dc},{1309,0x11b4b7f81d64b},{1309,0x1662200b768a1},{1309,0x1a1d9135cca53},{1309,0x1c988c8bc082d},{1309,0x2c17b1cf21148},{1309,0x30e6c7d4e3480},{1309,0x31c8b8cb3243f},{1309,0x3274280201a89},{1309,0x3349ccb37f3c3},{1309,0x34da7c0d0e81b},{1309,0x358b96a0c4cb9},{1309,0x41cd4392cb9ef},{1309,0x437a030469564},{1309,0x6a635786c9575},{1309,0x71760b3c0bc13},{1309,0x732d800f48b82},{1309,0x7cf83db4f0eaa},{1309,0x7e22da593bf01},{1309,0x8d2452aace1ad},{1309,0x93918a3331ace},{1309,0x9e98a3969dcd0},{1309,0xa05a2af2079d8},{1309,0xa551625d495fd},{1309,0xb077ee7615d9d},{1309,0xb24ac909da375},{1309,0xb44e355a48577},{1309,0xc0a93f209ecd2},{1309,0xc6ac68515804a},{1309,0xce4d8f7d3333c},{1309,0xcfb1261a6dd7e},{1309,0xcff8e0131ae62},{1309,0xd2cd0ef6d923f},{1309,0xda232347e6032},{1309,0xe9d173e8a376d},{1309,0xef79d1b01ff27},
{1310,0x3a58276bc3a1},{1310,0x49cd50859350},{1310,0xd058ba53e146},{1310,0x101f07813e5e7},{1310,0x1033edabef16d},{1310,0x10f452d2063dc},{1310,0x1662200b768a1},{1310,0x1a1d9135cca53},{1310,0x1c988c8bc082d},{1310,0x1f3bd4a5be219},{1310,0x262298d9f9104},{1310,0x2912119642a73},{1310,0x3349ccb37f3c3},{1310,0x34da7c0d0e81b},{1310,0x358b96a0c4cb9},{1310,0x437a030469564},{1310,0x56afdb4ba2d8f},{1310,0x71760b3c0bc13},{1310,0x732d800f48b82},{1310,0x7cf83db4f0eaa},{1310,0x82edf8ddcb3e4},{1310,0x90755720c8bef},{1310,0x90f6fcd910cd8},{1310,0x93918a3331ace},{1310,0x9bcdfabc13579},{1310,0xa05a2af2079d8},{1310,0xb077ee7615d9d},{1310,0xb24ac909da375},{1310,0xbb9466a19d3e7},{1310,0xc6ac68515804a},{1310,0xc76ccd776f2b9},{1310,0xc82d329d86528},{1310,0xce4d8f7d3333c},{1310,0xcff8e0131ae62},{1310,0xda232347e6032},{1310,0xde4f416fbe4d6},{1310,0xdeb90d143ce2a},{1310,0xdfb958e19d6c5},{1310,0xe5f8b71298d28},{1310,0xe9d173e8a376d},{1310,0xea047a986c621},{1310,0xef79d1b01ff27},{1310,0xfda3dea7fe714},
{1311,0x3a58276bc3a1},{1311,0x9e244fbfd4c4},{1311,0x101f07813e5e7},{1311,0x1033edabef16d},{1311,0x10f452d2063dc},{1311,0x165bca067f70a},{1311,0x1662200b768a1},{1311,0x1a1d9135cca53},{1311,0x1c988c8bc082d},{1311,0x1f3bd4a5be219},{1311,0x2c41f90901c47},{1311,0x3349ccb37f3c3},{1311,0x34da7c0d0e81b},{1311,0x358b96a0c4cb9},{1311,0x4ca80c74a0e43},{1311,0x681b8d9e1bdf8},{1311,0x68543b6490eca},{1311,0x6bd05d91af213},{1311,0x71760b3c0bc13},{1311,0x73eb2fd54f817},{1311,0x7cf83db4f0eaa},{1311,0x874c18bd02578},{1311,0xa05a2af2079d8},{1311,0xa0b775a79353b},{1311,0xa9736c7873123},{1311,0xb077ee7615d9d},{1311,0xb58ada67d48d1},{1311,0xb9254ba3b747c},{1311,0xbb9466a19d3e7},{1311,0xc038674498600},{1311,0xc46b38df128fd},{1311,0xc82d329d86528},{1311,0xcff8e0131ae62},{1311,0xda232347e6032},{1311,0xdeb90d143ce2a},{1311,0xdfb958e19d6c5},{1311,0xe9d173e8a376d},{1311,0xea047a986c621},{1311,0xef79d1b01ff27},{1311,0xfda3dea7fe714},{1311,0xff3a4a7ea278a},
{1312,0x31f663e22a02},{1312,0x9e244fbfd4c4},{1312,0xc71f3ed7b542},{1312,0x101f07813e5e7},{1312,0x1033edabef16d},{1312,0x10f452d2063dc},{1312,0x165bca067f70a},{1312,0x1a1d9135cca53},{1312,0x20085b1b260ce},{1312,0x2c41f90901c47},{1312,0x2f17c2c936cdb},{1312,0x3349ccb37f3c3},{1312,0x34da7c0d0e81b},{1312,0x358b96a0c4cb9},{1312,0x4ca80c74a0e43},{1312,0x5feac641f4ce2},{1312,0x681b8d9e1bdf8},{1312,0x71760b3c0bc13},{1312,0x73eb2fd54f817},{1312,0x999e95848f266},{1312,0xa11f587300f15},{1312,0xa9736c7873123},{1312,0xb58ada67d48d1},{1312,0xc038674498600},{1312,0xc277fbb280646},{1312,0xc82d329d86528},{1312,0xcbef2c5bfa153},{1312,0xcff8e0131ae62},{1312,0xda232347e6032},{1312,0xdeb90d143ce2a},{1312,0xdfb958e19d6c5},{1312,0xec0593728369a},{1312,0xef79d1b01ff27},{1312,0xf2fc12aef1564},{1312,0xf47aa0443809d},{1312,0xfda3dea7fe714},
{1313,0x160bcb58c16c},{1313,0xc71f3ed7b542},{1313,0x101f07813e5e7},{1313,0x10f452d2063dc},{1313,0x165bca067f70a},{1313,0x1a1d9135cca53},{1313,0x1cf295f70c8db},{1313,0x2c41f90901c47},{1313,0x2ede8faad8cec},{1313,0x5549742b4ab21},{1313,0x5feac641f4ce2},{1313,0x6fab3f1077545},{1313,0x71760b3c0bc13},{1313,0x73eb2fd54f817},{1313,0x7532ab3a71876},{1313,0x75ec48af66890},{1313,0x7d15bf3186080},{1313,0x82111b1052222},{1313,0x89cbcc2abf19e},{1313,0x8b2339d0b7134},{1313,0x969f5aa08d492},{1313,0xa11f587300f15},{1313,0xb58ada67d48d1},{1313,0xc038674498600},{1313,0xcbef2c5bfa153},{1313,0xcff8e0131ae62},{1313,0xd4cd89771bd7d},{1313,0xda232347e6032},{1313,0xdeb90d143ce2a},{1313,0xdfb958e19d6c5},{1313,0xe00ded2d3f6ad},{1313,0xec0593728369a},{1313,0xf47aa0443809d},{1313,0xf6a5025e71a61},
{1314,0x101f07813e5e7},{1314,0x165bca067f70a},{1314,0x1688cebc25761},{1314,0x170b07e7b13a3},{1314,0x1a1d9135cca53},{1314,0x27e3b95961c22},{1314,0x2c41f90901c47},{1314,0x2e6b44221e345},{1314,0x2ede8faad8cec},{1314,0x4103ba372bb7c},{1314,0x502a4d7372480},{1314,0x5549742b4ab21},{1314,0x5feac641f4ce2},{1314,0x6abad3d089249},{1314,0x73eb2fd54f817},{1314,0x75ec48af66890},{1314,0x7d15bf3186080},{1314,0x82111b1052222},{1314,0x89cbcc2abf19e},{1314,0x8a25d5960b24c},{1314,0x969f5aa08d492},{1314,0x975d661249b19},{1314,0x97f1d32a87da2},{1314,0x9eeca97bfee6c},{1314,0xa4e20a37c15df},{1314,0xab9c713cb6059},{1314,0xb58ada67d48d1},{1314,0xc038674498600},{1314,0xc2694a3db527d},{1314,0xd4cd89771bd7d},{1314,0xda232347e6032},{1314,0xdcfde572d5479},{1314,0xdeb90d143ce2a},{1314,0xdfb958e19d6c5},{1314,0xe00ded2d3f6ad},{1314,0xf6a5025e71a61},{1314,0xfdefe12596d8e},
{1315,0xbe032e5183c2},{1315,0x101f07813e5e7},{1315,0x165bca067f70a},{1315,0x170b07e7b13a3},{1315,0x1823408adf3c0},{1315,0x1a1d9135cca53},{1315,0x26bad7125385f},{1315,0x27e3b95961c22},{1315,0x34564f2e1157d},{1315,0x43e73fcdab482},{1315,0x502a4d7372480},{1315,0x5040cfce454ab},{1315,0x5feac641f4ce2},{1315,0x6abad3d089249},{1315,0x6af608fbc5c9d},{1315,0x75ec48af66890},{1315,0x7d15bf3186080},{1315,0x85d57d8862f0b},{1315,0x88315a5c05540},{1315,0xa4e20a37c15df},{1315,0xb1a6493721e36},{1315,0xb58ada67d48d1},{1315,0xc038674498600},{1315,0xd4cd89771bd7d},{1315,0xda1b45bf6ffa6},{1315,0xda232347e6032},{1315,0xe33aa7f81659c},{1315,0xf91aa58aafb97},{1315,0xfd0ec99958bdb},{1315,0xfdefe12596d8e},
{1316,0x170b07e7b13a3},{1316,0x1823408adf3c0},{1316,0x19e1f61f3cff2},{1316,0x1a1d9135cca53},{1316,0x27e3b95961c22},{1316,0x318fb55155e70},{1316,0x31a2e017965b0},{1316,0x3426c6ff28c20},{1316,0x34564f2e1157d},{1316,0x35e57c9386852},{1316,0x40e2eddc1d2f6},{1316,0x43e73fcdab482},{1316,0x5040cfce454ab},{1316,0x51e90307d00b2},{1316,0x590bbb48b25a9},{1316,0x5b4c9d5c03e99},{1316,0x6abad3d089249},{1316,0x6f709c688aa5a},{1316,0x71fb0f44f960b},{1316,0x7d1482ed717fc},{1316,0x7d15bf3186080},{1316,0x85d57d8862f0b},{1316,0x8696e88d4b8e1},{1316,0xb2533e725c666},{1316,0xb6b03ec710bf4},{1316,0xbfea654fa1508},{1316,0xd4cd89771bd7d},{1316,0xda232347e6032},{1316,0xe9f790b71cf93},{1316,0xfd0ec99958bdb},{1316,0xfdefe12596d8e},
{1317,0x16956dfca36},{1317,0x8b272b730a1f},{1317,0x1684c6aa682c6},{1317,0x170b07e7b13a3},{1317,0x1823408adf3c0},{1317,0x1f38bdfb8accf},{1317,0x23b6669d3fb03},{1317,0x318fb55155e70},{1317,0x3426c6ff28c20},{1317,0x34564f2e1157d},{1317,0x3a4119136abf8},{1317,0x41b8ebe2ef1c7},{1317,0x502a4d7372480},{1317,0x66860466c817f},{1317,0x6abad3d089249},{1317,0x6c2dd3e7bbce0},{1317,0x6f709c688aa5a},{1317,0x71fb0f44f960b},{1317,0x7d15bf3186080},{1317,0x8696e88d4b8e1},{1317,0x885933e4b83f9},{1317,0x9e80124093ac4},{1317,0xb29f3fc81386d},{1317,0xb6b03ec710bf4},{1317,0xbfea654fa1508},{1317,0xc1d2d9135225e},{1317,0xcc8a021f480ff},{1317,0xcfaead9244c76},{1317,0xda232347e6032},{1317,0xdaf2c06781431},{1317,0xef5236e0c084a},
{1318,0x16956dfca36},{1318,0xa217d50ba790},{1318,0x1684c6aa682c6},{1318,0x1823408adf3c0},{1318,0x1f38bdfb8accf},{1318,0x23b6669d3fb03},{1318,0x262503c503ff0},{1318,0x3426c6ff28c20},{1318,0x35c138cde287e},{1318,0x3a4119136abf8},{1318,0x42a6da28da0f8},{1318,0x5b636a1a86b15},{1318,0x5bab6c227863c},{1318,0x6abad3d089249},{1318,0x6e42ac6a02e4d},{1318,0x6f709c688aa5a},{1318,0x71fb0f44f960b},{1318,0x7853f4f92717c},{1318,0x7d15bf3186080},{1318,0x8696e88d4b8e1},{1318,0x885933e4b83f9},{1318,0x8c1ee26f699b0},{1318,0x8dcae8b90cda2},{1318,0x9ba26af7e89a4},{1318,0x9e80124093ac4},{1318,0xa642b599d9d55},{1318,0xade6c800d7313},{1318,0xb6b03ec710bf4},{1318,0xbb2ad233d59b1},{1318,0xbfea654fa1508},{1318,0xc1d2d9135225e},{1318,0xc3b6649f97af5},{1318,0xcfaead9244c76},{1318,0xda232347e6032},{1318,0xdaf2c06781431},{1318,0xe154b85eaef4c},{1318,0xef5236e0c084a},{1318,0xf1769323b25d9},{1318,0xf8fbc2e4ae6b3},
{1319,0x16956dfca36},{1319,0x12d42f634945},{1319,0x3209bb3a8178},{1319,0xa217d50ba790},{1319,0x11225eedccda8},{1319,0x1823408adf3c0},{1319,0x1a92e0812afa7},{1319,0x1f38bdfb8accf},{1319,0x23b6669d3fb03},{1319,0x3a1b47bd17fb4},{1319,0x42a6da28da0f8},{1319,0x53c8f8f021864},{1319,0x578a057b85e2c},{1319,0x5b636a1a86b15},{1319,0x6c6095a9ff35e},{1319,0x6f709c688aa5a},{1319,0x7d15bf3186080},{1319,0x80d71acdef869},{1319,0x8c1ee26f699b0},{1319,0x8dcae8b90cda2},{1319,0x96257d7cd0433},{1319,0x9ba26af7e89a4},{1319,0x9e80124093ac4},{1319,0xa642b599d9d55},{1319,0xa93b8c20868d7},{1319,0xade6c800d7313},{1319,0xaf353bc81a7e6},{1319,0xb6b03ec710bf4},{1319,0xbb2ad233d59b1},{1319,0xbfea654fa1508},{1319,0xc1d2d9135225e},{1319,0xc3b6649f97af5},{1319,0xcfaead9244c76},{1319,0xda232347e6032},
{1320,0x16956dfca36},{1320,0x1823408adf3c0},{1320,0x1b77b17026707},{1320,0x1f38bdfb8accf},{1320,0x23b6669d3fb03},{1320,0x298bef8be3ed6},{1320,0x2d9d5d24c02aa},{1320,0x3b27a89c3b238},{1320,0x3e6110f2f9056},{1320,0x42a6da28da0f8},{1320,0x44bd0e190fc0b},{1320,0x476c5dd1c7a21},{1320,0x578a057b85e2c},{1320,0x5b636a1a86b15},{1320,0x5e2c10ad970b0},{1320,0x7d15bf3186080},{1320,0x813078bef2f28},{1320,0x857053f549711},{1320,0x8c1ee26f699b0},{1320,0x8dcae8b90cda2},{1320,0x96257d7cd0433},{1320,0x9e80124093ac4},{1320,0xa642b599d9d55},{1320,0xa6daa70457155},{1320,0xaf353bc81a7e6},{1320,0xbb2ad233d59b1},{1320,0xbce96ed94ef8e},{1320,0xc1d2d9135225e},{1320,0xc3b6649f97af5},{1320,0xcfaead9244c76},{1320,0xd09f8ed72822a},{1320,0xee5d424457c06},{1320,0xef9923883383f},{1320,0xf6b0f092959c7},
{1321,0x6a10c8231484},{1321,0x11bf43017a99d},{1321,0x12bcd0bc86a06},{1321,0x13fa3a58aab66},{1321,0x1823408adf3c0},{1321,0x1b77b17026707},{1321,0x1f38bdfb8accf},{1321,0x298bef8be3ed6},{1321,0x29a574938d2fc},{1321,0x3b27a89c3b238},{1321,0x3c3e2c5808805},{1321,0x42a6da28da0f8},{1321,0x476c5dd1c7a21},{1321,0x5350d75eb4fab},{1321,0x578a057b85e2c},{1321,0x5b636a1a86b15},{1321,0x6ec8eda74bf2a},{1321,0x738e715039853},{1321,0x7d15bf3186080},{1321,0x8768f0c1df287},{1321,0x8c1ee26f699b0},{1321,0x8dcae8b90cda2},{1321,0x939c5986e5551},{1321,0x96257d7cd0433},{1321,0x9e80124093ac4},{1321,0xa642b599d9d55},{1321,0xa6daa70457155},{1321,0xa99b509ea7759},{1321,0xbb2ad233d59b1},{1321,0xbce96ed94ef8e},{1321,0xc1d2d9135225e},{1321,0xc3b6649f97af5},{1321,0xd09f8ed72822a},{1321,0xd380b6c5c3755},{1321,0xee5d424457c06},{1321,0xef9923883383f},{1321,0xf241e9fca7868},{1321,0xfa6476a9f92ff},
{1322,0x6a10c8231484},{1322,0xf62268688422},{1322,0x1823408adf3c0},{1322,0x1b77b17026707},{1322,0x20e45a8f3635e},{1322,0x37f8632227763},{1322,0x42a6da28da0f8},{1322,0x52d8b5cd486f2},{1322,0x5350d75eb4fab},{1322,0x578a057b85e2c},{1322,0x7904b46df0355},{1322,0x792c3fb55214f},{1322,0x7d15bf3186080},{1322,0x96257d7cd0433},{1322,0x9e80124093ac4},{1322,0xa6daa70457155},{1322,0xb907ed98e5160},{1322,0xbce1b62fcea55},{1322,0xc3b6649f97af5},{1322,0xd09f8ed72822a},{1322,0xd380b6c5c3755},{1322,0xd55d9f9ef8709},{1322,0xef9923883383f},{1322,0xf0342d071ef4b},{1322,0xf241e9fca7868},{1322,0xfaa12521bc287},
{1323,0x2407f8005cb5},{1323,0x6a10c8231484},{1323,0xe527a332d826},{1323,0x1b77b17026707},{1323,0x27d04cc0b38b6},{1323,0x2f90cb8523c54},{1323,0x32668e97e429a},{1323,0x3944caad1fe3d},{1323,0x42a6da28da0f8},{1323,0x4a64ce3e8cf4b},{1323,0x5350d75eb4fab},{1323,0x578a057b85e2c},{1323,0x5e2c10ad970b0},{1323,0x6a47d4e7ec632},{1323,0x7904b46df0355},{1323,0x792c3fb55214f},{1323,0x7d15bf3186080},{1323,0x7dd763e0df92c},{1323,0x87e112534bb40},{1323,0x89f192c349ec6},{1323,0x8e64feb860095},{1323,0x96257d7cd0433},{1323,0xa6daa70457155},{1323,0xb8381f2b11854},{1323,0xbce1b62fcea55},{1323,0xc3b6649f97af5},{1323,0xc831367ac90d5},{1323,0xd55d9f9ef8709},{1323,0xea1fb75bb8455},{1323,0xef9923883383f},{1323,0xf0342d071ef4b},{1323,0xf44a733670f79},{1323,0xf6b0f092959c7},{1323,0xfcba2f747cc12},
{1324,0x73bceb2f3ad},{1324,0x453fc4d6757c},{1324,0x6a10c8231484},{1324,0x1c83cd8d0ab8f},{1324,0x264aca5d8ed17},{1324,0x32668e97e429a},{1324,0x37eb6048e72e5},{1324,0x3a2e965b9d81c},{1324,0x42a6da28da0f8},{1324,0x464ad105ea6f4},{1324,0x48494fa2bd9a5},{1324,0x5350d75eb4fab},{1324,0x6a47d4e7ec632},{1324,0x6d5ce4104a119},{1324,0x7904b46df0355},{1324,0x792c3fb55214f},{1324,0x87e112534bb40},{1324,0x9b6fa8bce2546},{1324,0xa6daa70457155},{1324,0xb19235e4d43d5},{1324,0xb1e14f2bac3cf},{1324,0xb7dad28042e8e},{1324,0xc28976554bd95},{1324,0xc3b6649f97af5},{1324,0xc831367ac90d5},{1324,0xe35d7f2f41d4b},{1324,0xea1fb75bb8455},{1324,0xf6b0f092959c7},
{1325,0x73bceb2f3ad},{1325,0x453fc4d6757c},{1325,0x6a10c8231484},{1325,0x11926d079e009},{1325,0x1c83cd8d0ab8f},{1325,0x27752e1277714},{1325,0x2c3ec45455586},{1325,0x32668e97e429a},{1325,0x37eb6048e72e5},{1325,0x3a2e965b9d81c},{1325,0x3d57ef1d50e1f},{1325,0x42a6da28da0f8},{1325,0x48494fa2bd9a5},{1325,0x4b4c9d33ffbf0},{1325,0x4bcebe47ec41b},{1325,0x533ab0282a52a},{1325,0x5350d75eb4fab},{1325,0x6d5ce4104a119},{1325,0x7904b46df0355},{1325,0x792c3fb55214f},{1325,0x87e112534bb40},{1325,0x8ca3864ee0f39},{1325,0x9b6fa8bce2546},{1325,0xa02326f206232},{1325,0xa3e72c415b475},{1325,0xae44df7249f4d},{1325,0xb19235e4d43d5},{1325,0xb1e14f2bac3cf},{1325,0xb7dad28042e8e},{1325,0xc2401e1a24e1b},{1325,0xc28976554bd95},{1325,0xc3a255b84e8e0},{1325,0xc3f3665eab265},{1325,0xc55d56680a735},{1325,0xcdd8f6a046415},{1325,0xd6a03274e7d7a},{1325,0xe35d7f2f41d4b},
{1326,0x73bceb2f3ad},{1326,0x453fc4d6757c},{1326,0x6a10c8231484},{1326,0xb93fbd82353c},{1326,0x11926d079e009},{1326,0x1c2f8e9a0b349},{1326,0x1c83cd8d0ab8f},{1326,0x27752e1277714},{1326,0x32668e97e429a},{1326,0x3a2e965b9d81c},{1326,0x3d57ef1d50e1f},{1326,0x42a6da28da0f8},{1326,0x44b5afdc81734},{1326,0x523b919fb6bd7},{1326,0x7904b46df0355},{1326,0x7f00323ddd340},{1326,0x87e112534bb40},{1326,0x8ca3864ee0f39},{1326,0x93b88f93ce04e},{1326,0xae44df7249f4d},{1326,0xb0cc96ca47870},{1326,0xb1e14f2bac3cf},{1326,0xbfb596428d3f5},{1326,0xc28976554bd95},{1326,0xc3a255b84e8e0},{1326,0xc3f3665eab265},{1326,0xc55d56680a735},{1326,0xcdd8f6a046415},{1326,0xe35d7f2f41d4b},{1326,0xec6df7741c677},{1326,0xffc8e47dfba2a},
{1327,0x73bceb2f3ad},{1327,0xb93fbd82353c},{1327,0xf61ee3a34fc2},{1327,0x11926d079e009},{1327,0x1958b36c5102b},{1327,0x3a2e965b9d81c},{1327,0x3f8bbd10cee3c},{1327,0x42a6da28da0f8},{1327,0x48494fa2bd9a5},{1327,0x523b919fb6bd7},{1327,0x5e9fefd6d6250},{1327,0x7904b46df0355},{1327,0x79b9b87990cb4},{1327,0x7f00323ddd340},{1327,0x87e112534bb40},{1327,0x88ba3bf284e23},{1327,0x8ca3864ee0f39},{1327,0x93b88f93ce04e},{1327,0xb1e14f2bac3cf},{1327,0xb5b714d8fccdc},{1327,0xbfb596428d3f5},{1327,0xc3f3665eab265},{1327,0xc4a85e635accd},{1327,0xc6c7467169c05},{1327,0xdc4c2acbb9f89},{1327,0xe35d7f2f41d4b},{1327,0xec6df7741c677},{1327,0xf229a19d43358},{1327,0xffc8e47dfba2a},
{1328,0xb93fbd82353c},{1328,0x11926d079e009},{1328,0x1958b36c5102b},{1328,0x2268b2d9bbfdb},{1328,0x271d6b007eb1a},{1328,0x2c1ebce619f08},{1328,0x3a2e965b9d81c},{1328,0x42a6da28da0f8},{1328,0x48494fa2bd9a5},{1328,0x4ba18046c0581},{1328,0x523b919fb6bd7},{1328,0x5e9fefd6d6250},{1328,0x63b667b20d4be},{1328,0x6a250102b41d5},{1328,0x7e5b194dc96bb},{1328,0x7f00323ddd340},{1328,0x820e7065b17d3},{1328,0x87e112534bb40},{1328,0x8ca3864ee0f39},{1328,0x93b88f93ce04e},{1328,0x9c5d25583eba5},{1328,0xb1e14f2bac3cf},{1328,0xb5b714d8fccdc},{1328,0xbfb596428d3f5},{1328,0xc33e6e59fb7fd},{1328,0xc3f3665eab265},{1328,0xc44de26102f99},{1328,0xc6c7467169c05},{1328,0xdc4c2acbb9f89},{1328,0xe1b42df1a6fcb},{1328,0xe211c8c923ff0},{1328,0xe30e072cdbc45},{1328,0xe35d7f2f41d4b},{1328,0xe7df751afe42c},{1328,0xec6df7741c677},{1328,0xfe8bb454dff2e},
{1329,0xb93fbd82353c},{1329,0xf4b4f399f075},{1329,0x11926d079e009},{1329,0x1958b36c5102b},{1329,0x2268b2d9bbfdb},{1329,0x271d6b007eb1a},{1329,0x2c1ebce619f08},{1329,0x34e22294ac609},{1329,0x3a2e965b9d81c},{1329,0x3a52223cb95d9},{1329,0x455f565e780ac},{1329,0x48494fa2bd9a5},{1329,0x4bd9e65d0d373},{1329,0x51a112616e17d},{1329,0x523b919fb6bd7},{1329,0x52fe1cdd98fb2},{1329,0x5e304951356d6},{1329,0x63b667b20d4be},{1329,0x6a250102b41d5},{1329,0x7e5b194dc96bb},{1329,0x7f00323ddd340},{1329,0x820e7065b17d3},{1329,0x87e112534bb40},{1329,0x99f7dfc8aedd1},{1329,0x9c5d25583eba5},{1329,0xb0dc4c3e85a03},{1329,0xb727e724f8eec},{1329,0xbae52c2e7901f},{1329,0xbfb596428d3f5},{1329,0xc21947aa65a72},{1329,0xc33e6e59fb7fd},{1329,0xc420a45fd70ff},{1329,0xc44de26102f99},{1329,0xc502da65b2a01},{1329,0xcd0aa82fd25f7},{1329,0xd161ceb7b481d},{1329,0xd7fc08b53f17d},{1329,0xdc4c2acbb9f89},{1329,0xe1b42df1a6fcb},{1329,0xe211c8c923ff0},{1329,0xe2ed693aabd02},{1329,0xe35d7f2f41d4b},{1329,0xe7df751afe42c},{1329,0xe8a3225d5dfb2},{1329,0xeddec9c018888},{1329,0xee61801c592ca},{1329,0xf8d02a458540d},{1329,0xfc9e18a79feef},
{1330,0xb93fbd82353c},{1330,0x11926d079e009},{1330,0x1958b36c5102b},{1330,0x1df49fd906d9f},{1330,0x268bacf5e3a9a},{1330,0x271d6b007eb1a},{1330,0x2d7667c02fafb},{1330,0x38bf09a248fda},{1330,0x455f565e780ac},{1330,0x4646d9ee380d8},{1330,0x523b919fb6bd7},{1330,0x54ab82742673b},{1330,0x5e304951356d6},{1330,0x663bcc9b0b814},{1330,0x6a250102b41d5},{1330,0x7619b8b432cd4},{1330,0x79d21ae860ffd},{1330,0x87e112534bb40},{1330,0x88ba3bf284e23},{1330,0x8b62650f460d6},{1330,0x9c5d25583eba5},{1330,0xa307df3619d81},{1330,0xb0dc4c3e85a03},{1330,0xbfb596428d3f5},{1330,0xc21947aa65a72},{1330,0xc33e6e59fb7fd},{1330,0xc420a45fd70ff},{1330,0xc43743606d04c},{1330,0xc502da65b2a01},{1330,0xc88bb27d20e09},{1330,0xca1ce5b6e3ba7},{1330,0xce7b7a7bce808},{1330,0xdc3948aeb610c},{1330,0xe1b42df1a6fcb},{1330,0xe35d7f2f41d4b},{1330,0xeae8caef261ac},{1330,0xf4ba3fa20306d},{1330,0xf8d02a458540d},{1330,0xfc9e18a79feef},
{1331,0x11926d079e009},{1331,0x17c38670526d4},{1331,0x1958b36c5102b},{1331,0x1e60db7ce75b8},{1331,0x2d7667c02fafb},{1331,0x2e5d6a8b3aada},{1331,0x38bf09a248fda},{1331,0x3be71cd154c0f},{1331,0x3f0f300060843},{1331,0x4e7a690b72070},{1331,0x523b919fb6bd7},{1331,0x5e304951356d6},{1331,0x6a250102b41d5},{1331,0x8b62650f460d6},{1331,0x96f69e9694083},{1331,0x979bb2c62785f},{1331,0x9c5d25583eba5},{1331,0xa293df3d6e185},{1331,0xa426cab217c02},{1331,0xa5ec977a2d8d0},{1331,0xbfb596428d3f5},{1331,0xc21947aa65a72},{1331,0xc3af895ce947e},{1331,0xc420a45fd70ff},{1331,0xc43743606d04c},{1331,0xc491bf62c4d80},{1331,0xc88bb27d20e09},{1331,0xce7b7a7bce808},{1331,0xe1b42df1a6fcb},{1331,0xe35d7f2f41d4b},{1331,0xeae8caef261ac},{1331,0xeffdcbeb70e1d},{1331,0xf4ba3fa20306d},{1331,0xf8d02a458540d},{1331,0xfc9e18a79feef},
{1332,0x400cdc74e456},{1332,0xe000936bb5b8},{1332,0x11926d079e009},{1332,0x17c38670526d4},{1332,0x1958b36c5102b},{1332,0x1e60db7ce75b8},{1332,0x26ab93e1e13d9},{1332,0x276e761f83af3},{1332,0x2d328abe6dd14},{1332,0x2d7667c02fafb},{1332,0x2da3a5c15b995},{1332,0x2e5d6a8b3aada},{1332,0x354c5ef6f1ac1},{1332,0x495659fc7435c},{1332,0x5192f5bfcc3d5},{1332,0x587a33193c445},{1332,0x5adc9bdcdae06},{1332,0x5df64954df8d8},{1332,0x5e304951356d6},{1332,0x6a250102b41d5},{1332,0x6c012017072df},{1332,0x702e98335c941},{1332,0x78cb8610035fd},{1332,0x85314ba691a0b},{1332,0x8849d85aebd71},{1332,0x94cf27a940696},{1332,0x96f69e9694083},{1332,0x979bb2c62785f},{1332,0xa293df3d6e185},{1332,0xa426cab217c02},{1332,0xa5ec977a2d8d0},{1332,0xb2746beaafcd7},{1332,0xc1eb1d513227a},{1332,0xc21947aa65a72},{1332,0xc420a45fd70ff},{1332,0xc6562b6e7bf84},{1332,0xc88bb27d20e09},{1332,0xcbb6ba01c6347},{1332,0xce7b7a7bce808},{1332,0xd6bd327312c79},{1332,0xf64df24988686},{1332,0xf8d02a458540d},{1332,0xfc9e18a79feef},
{1333,0x400cdc74e456},{1333,0x6333c496d5fb},{1333,0xb1ffbdf77940},{1333,0xe000936bb5b8},{1333,0x1958b36c5102b},{1333,0x26ab93e1e13d9},{1333,0x2c5054b892412},{1333,0x2d7667c02fafb},{1333,0x2e5d6a8b3aada},{1333,0x2e85dbc737297},{1333,0x3be71cd154c0f},{1333,0x495659fc7435c},{1333,0x4b61dc5717d0a},{1333,0x5320f6e81987c},{1333,0x5df64954df8d8},{1333,0x5e304951356d6},{1333,0x6a250102b41d5},{1333,0x6c012017072df},{1333,0x702e98335c941},{1333,0x78e225109954a},{1333,0x85314ba691a0b},{1333,0x94cf27a940696},{1333,0x979bb2c62785f},{1333,0xa426cab217c02},{1333,0xb156ac4c2d1e5},{1333,0xb72c729c9d26c},{1333,0xbd800f33e8570},{1333,0xbf00baf60b70c},{1333,0xc420a45fd70ff},{1333,0xc747dcebc5c41},{1333,0xc88bb27d20e09},{1333,0xd6bd327312c79},{1333,0xd9daab39ff216},{1333,0xdea2f90f91f3b},{1333,0xeae8caef261ac},{1333,0xf4f62cba2a521},{1333,0xf64df24988686},{1333,0xf8d02a458540d},
{1334,0x30b291a619c6},{1334,0x400cdc74e456},{1334,0x7cbd89845d7a},{1334,0x95b4f787922f},{1334,0x1714b390f643f},{1334,0x1958b36c5102b},{1334,0x210d2c8d61105},{1334,0x2e5d6a8b3aada},{1334,0x2e85dbc737297},{1334,0x34a822985680b},{1334,0x3be71cd154c0f},{1334,0x5320f6e81987c},{1334,0x5e304951356d6},{1334,0x6a250102b41d5},{1334,0x702e98335c941},{1334,0x775b2985a4b9a},{1334,0x79534013871cb},{1334,0x872770133daa6},{1334,0xa219034e4e88c},{1334,0xa426cab217c02},{1334,0xa768c8a17743e},{1334,0xb156ac4c2d1e5},{1334,0xb72c729c9d26c},{1334,0xbd354e7471f6b},{1334,0xbf00baf60b70c},{1334,0xc420a45fd70ff},{1334,0xc88bb27d20e09},{1334,0xd6bd327312c79},{1334,0xd9daab39ff216},{1334,0xdbe8729dc858d},{1334,0xdea2f90f91f3b},{1334,0xeae8caef261ac},{1334,0xf4f62cba2a521},{1334,0xf64df24988686},{1334,0xf8d02a458540d},
{1335,0x30b291a619c6},{1335,0x400cdc74e456},{1335,0x7cbd89845d7a},{1335,0x95b4f787922f},{1335,0xadbf0f6a1147},{1335,0x1130d4a21ad07},{1335,0x1958b36c5102b},{1335,0x210d2c8d61105},{1335,0x229be8f0d73d3},{1335,0x237a387dfe9fe},{1335,0x27c3a89e5dfc7},{1335,0x2e5d6a8b3aada},{1335,0x2e7a24af5ae8a},{1335,0x2e85dbc737297},{1335,0x34a822985680b},{1335,0x52dc4a086fb3a},{1335,0x702e98335c941},{1335,0x706c3519edbb3},{1335,0x775b2985a4b9a},{1335,0x7b88c7222c050},{1335,0x7e4a1df15bb81},{1335,0x894cda6e240f8},{1335,0x93ad27bb930a0},{1335,0x9eb9f239af165},{1335,0xa276df3f43286},{1335,0xa768c8a17743e},{1335,0xb156ac4c2d1e5},{1335,0xb193c2d411987},{1335,0xb72c729c9d26c},{1335,0xbd354e7471f6b},{1335,0xbf00baf60b70c},{1335,0xc420a45fd70ff},{1335,0xcc6db31805491},{1335,0xdbe8729dc858d},{1335,0xdea2f90f91f3b},{1335,0xe6bd752d50e36},{1335,0xf64df24988686},{1335,0xf8d02a458540d},{1335,0xfbca08852bb19},{1335,0xfcabca9c00ce7},
{1336,0x30b291a619c6},{1336,0x400cdc74e456},{1336,0xadbf0f6a1147},{1336,0x1130d4a21ad07},{1336,0x1284d7a14fa33},{1336,0x1958b36c5102b},{1336,0x210d2c8d61105},{1336,0x237a387dfe9fe},{1336,0x27c3a89e5dfc7},{1336,0x2e5d6a8b3aada},{1336,0x2e7a24af5ae8a},{1336,0x2e85dbc737297},{1336,0x409cda49d530a},{1336,0x54b0636b11c17},{1336,0x6143c07723f76},{1336,0x702e98335c941},{1336,0x736231ca34b6a},{1336,0x775b2985a4b9a},{1336,0x7cac8db1f5026},{1336,0x7e4a1df15bb81},{1336,0x805394483c4ae},{1336,0x82b532f442455},{1336,0x894cda6e240f8},{1336,0x8a915df8be5a2},{1336,0x9049e971f19ea},{1336,0x9a05efa037b1d},{1336,0xa0dee84aadc07},{1336,0xb156ac4c2d1e5},{1336,0xb16d4b4cc3132},{1336,0xb72c729c9d26c},{1336,0xb84a3ee50e84a},{1336,0xbce2f7e8ba884},{1336,0xbf00baf60b70c},{1336,0xc420a45fd70ff},{1336,0xcc6db31805491},{1336,0xe6bd752d50e36},{1336,0xe9875685ff099},{1336,0xee2250ef28f29},{1336,0xf8d02a458540d},{1336,0xfbca08852bb19},
{1337,0x27e94752076e},{1337,0x30b291a619c6},{1337,0x6333c496d5fb},{1337,0x1284d7a14fa33},{1337,0x1958b36c5102b},{1337,0x1c1dfacca02aa},{1337,0x237a387dfe9fe},{1337,0x24116bb65ab6e},{1337,0x27c3a89e5dfc7},{1337,0x377d226a87ef2},{1337,0x409cda49d530a},{1337,0x495414f34e994},{1337,0x5d1bcddb7f619},{1337,0x6143c07723f76},{1337,0x736231ca34b6a},{1337,0x775b2985a4b9a},{1337,0x8a915df8be5a2},{1337,0x8c0699269b198},{1337,0x916539c3bfb9a},{1337,0x9a05efa037b1d},{1337,0xaadd46c314ac5},{1337,0xb156ac4c2d1e5},{1337,0xbf00baf60b70c},{1337,0xc420a45fd70ff},{1337,0xcc6db31805491},{1337,0xd9874caa60471},{1337,0xe9875685ff099},{1337,0xfa1511926b59b},{1337,0xff33f66aac615},
{1338,0x30b291a619c6},{1338,0x54fa210f1157},{1338,0xc774efac8d6a},{1338,0x1284d7a14fa33},{1338,0x152f0660e92c3},{1338,0x1958b36c5102b},{1338,0x1b0daa5f115a9},{1338,0x1c1dfacca02aa},{1338,0x237a387dfe9fe},{1338,0x24116bb65ab6e},{1338,0x27c3a89e5dfc7},{1338,0x36c4c4c96eb3b},{1338,0x3c0cfe5a2e8fe},{1338,0x49bc922922722},{1338,0x592baeb026cad},{1338,0x736231ca34b6a},{1338,0x775b2985a4b9a},{1338,0x7a18addb31a2c},{1338,0x7bb00cf4f778b},{1338,0x88dc6705fe024},{1338,0x8a915df8be5a2},{1338,0x8c0699269b198},{1338,0x916539c3bfb9a},{1338,0x9a05efa037b1d},{1338,0xaadd46c314ac5},{1338,0xb156ac4c2d1e5},{1338,0xc8646caa556ce},{1338,0xcc6db31805491},{1338,0xd90dffd434563},{1338,0xd9874caa60471},{1338,0xe174c1837857c},{1338,0xe9875685ff099},{1338,0xfaef8d0bcb85a},{1338,0xfd324bffe852a},
{1339,0x30b291a619c6},{1339,0x1284d7a14fa33},{1339,0x152f0660e92c3},{1339,0x1689a557a788f},{1339,0x1b0daa5f115a9},{1339,0x237a387dfe9fe},{1339,0x27c3a89e5dfc7},{1339,0x32ed467ae14e6},{1339,0x36c4c4c96eb3b},{1339,0x3c0cfe5a2e8fe},{1339,0x3e54ec5201e04},{1339,0x49bc922922722},{1339,0x50ee2b3cc7cfa},{1339,0x736231ca34b6a},{1339,0x770cd49e478f1},{1339,0x775b2985a4b9a},{1339,0x7a18addb31a2c},{1339,0x849c3510eb2a2},{1339,0x85c483fde5eef},{1339,0x88dc6705fe024},{1339,0x8cd5e8c56b26c},{1339,0x916539c3bfb9a},{1339,0x9a05efa037b1d},{1339,0x9b14e6d7d9dbe},{1339,0xb156ac4c2d1e5},{1339,0xd03abe3cc1e44},{1339,0xd90dffd434563},{1339,0xd9874caa60471},{1339,0xe174c1837857c},{1339,0xfaef8d0bcb85a},
{1340,0x30b291a619c6},{1340,0x54eaf1e5f06e},{1340,0x1284d7a14fa33},{1340,0x1fa466e82053b},{1340,0x237a387dfe9fe},{1340,0x26f9e8c93e682},{1340,0x27c3a89e5dfc7},{1340,0x293af2decc123},{1340,0x3c0cfe5a2e8fe},{1340,0x3d30f55618381},{1340,0x3e54ec5201e04},{1340,0x4f1007f91dbc2},{1340,0x50ee2b3cc7cfa},{1340,0x75ef52942a066},{1340,0x775b2985a4b9a},{1340,0x7f85de8ad5c4e},{1340,0x85c483fde5eef},{1340,0x8cd5e8c56b26c},{1340,0x8e16536728fc1},{1340,0x916539c3bfb9a},{1340,0x9431c0753a56b},{1340,0x971bd80ab9044},{1340,0x9ba91a30223f9},{1340,0xa34330799b75f},{1340,0xa7103b9e58112},{1340,0xaadd46c314ac5},{1340,0xb2775d0c8de2b},{1340,0xc1e5fa08e4c3f},{1340,0xc2a3b24987fa9},{1340,0xd03abe3cc1e44},{1340,0xd9874caa60471},{1340,0xdf67562d8b362},{1340,0xe7779c4571270},{1340,0xeba083fa12ad9},{1340,0xfaef8d0bcb85a},
{1341,0x30b291a619c6},{1341,0x1fe88401b9305},{1341,0x26f9e8c93e682},{1341,0x27c3a89e5dfc7},{1341,0x35703f31144d9},{1341,0x38a1196671975},{1341,0x3d30f55618381},{1341,0x3e54ec5201e04},{1341,0x59e7e8c754c77},{1341,0x626d8c184bd7e},{1341,0x6e79d233fb0f4},{1341,0x75ef52942a066},{1341,0x7bff336d8ff06},{1341,0x85c483fde5eef},{1341,0x9431c0753a56b},{1341,0xa34330799b75f},{1341,0xa6bb489e24041},{1341,0xa7103b9e58112},{1341,0xaadd46c314ac5},{1341,0xc62a6367c59fa},{1341,0xd03abe3cc1e44},{1341,0xdf67562d8b362},{1341,0xe7779c4571270},{1341,0xe967a3ecea6c6},{1341,0xeba083fa12ad9},{1341,0xf75fb41638927},{1341,0xfaef8d0bcb85a},
{1342,0xedcf1f873c64},{1342,0x123b2485f9ec1},{1342,0x1fe88401b9305},{1342,0x27c3a89e5dfc7},{1342,0x3e54ec5201e04},{1342,0x47ba23be0649b},{1342,0x52d683ffcf8fa},{1342,0x626d8c184bd7e},{1342,0x6706b1861a269},{1342,0x751277687bcc0},{1342,0x75ef52942a066},{1342,0x7bff336d8ff06},{1342,0x85c483fde5eef},{1342,0x9431c0753a56b},{1342,0xa2c43660b3ba8},{1342,0xa34330799b75f},{1342,0xa529b60bf9c38},{1342,0xa59751a23a5be},{1342,0xa7103b9e58112},{1342,0xa8f6c130b65eb},{1342,0xb8b283fbfc4e4},{1342,0xb9bf1ab606204},{1342,0xbbced4f69402d},{1342,0xd03abe3cc1e44},{1342,0xdf67562d8b362},{1342,0xe08cf839c892a},{1342,0xe5c3425525f4a},{1342,0xe967a3ecea6c6},{1342,0xeba083fa12ad9},{1342,0xf75fb41638927},{1342,0xfaef8d0bcb85a},
{1343,0xedcf1f873c64},{1343,0x160c60d210a45},{1343,0x1fe88401b9305},{1343,0x3b65a72463bf4},{1343,0x3d4c2cb6c20cd},{1343,0x3e54ec5201e04},{1343,0x4398f3c5245e2},{1343,0x47ba23be0649b},{1343,0x4b914b5096548},{1343,0x5ad80aebd34cf},{1343,0x5b9151add1ba7},{1343,0x678d80a228689},{1343,0x6df5f219a0503},{1343,0x71f61efa1e1e1},{1343,0x751277687bcc0},{1343,0x9d8f9fc2808d2},{1343,0xa2c43660b3ba8},{1343,0xa529b60bf9c38},{1343,0xa59751a23a5be},{1343,0xa7103b9e58112},{1343,0xb090d77a2f951},{1343,0xb8b283fbfc4e4},{1343,0xbbced4f69402d},{1343,0xdc097be196655},{1343,0xdf67562d8b362},{1343,0xe0a95d2c6e63b},{1343,0xeba083fa12ad9},{1343,0xedbe42a2ca0c2},{1343,0xf75fb41638927},{1343,0xfaef8d0bcb85a},
{1344,0x776e279c7e3e},{1344,0x147a639dde6ea},{1344,0x160c60d210a45},{1344,0x1c02c1fb9a1e4},{1344,0x1fe88401b9305},{1344,0x217e55626c433},{1344,0x2ba095dc7701d},{1344,0x3d4c2cb6c20cd},{1344,0x3e54ec5201e04},{1344,0x4b914b5096548},{1344,0x5ad80aebd34cf},{1344,0x6c424c0e8dd52},{1344,0x713af1615de83},{1344,0x71f61efa1e1e1},{1344,0x751277687bcc0},{1344,0x7df8fff1a7cad},{1344,0x9ce2eb2e43bc6},{1344,0x9d8f9fc2808d2},{1344,0xa2c43660b3ba8},{1344,0xa7103b9e58112},{1344,0xa97882e205267},{1344,0xb6b2ca64eb36b},{1344,0xb801023a23a8d},{1344,0xbbced4f69402d},{1344,0xd06c1b7c1edc7},{1344,0xdaff0048f3ec7},{1344,0xdf67562d8b362},{1344,0xe0a95d2c6e63b},{1344,0xeba083fa12ad9},{1344,0xf456e7d74ac8e},{1344,0xf5e307142cdd1},{1344,0xf75fb41638927},{1344,0xfaef8d0bcb85a},
{1345,0xdaa20799e4e7},{1345,0x1c02c1fb9a1e4},{1345,0x1fe88401b9305},{1345,0x217e55626c433},{1345,0x2261879844f86},{1345,0x2a4af4ff1304e},{1345,0x2ba095dc7701d},{1345,0x3d4c2cb6c20cd},{1345,0x3e54ec5201e04},{1345,0x4b914b5096548},{1345,0x4ef0c1f9b07d9},{1345,0x554b9c3047dab},{1345,0x55dfee935bc15},{1345,0x5ad80aebd34cf},{1345,0x713af1615de83},{1345,0x751277687bcc0},{1345,0x8113d9476d537},{1345,0x88c56aa85f41d},{1345,0x8c25967fdafca},{1345,0x9d48a2f9e1959},{1345,0x9d8f9fc2808d2},{1345,0xa7103b9e58112},{1345,0xa97882e205267},{1345,0xb3ec9307257d9},{1345,0xb6b2ca64eb36b},{1345,0xbbced4f69402d},{1345,0xc170e0cab282c},{1345,0xd06c1b7c1edc7},{1345,0xd731f52437514},{1345,0xdaff0048f3ec7},{1345,0xdf67562d8b362},{1345,0xe4a02a21772b9},{1345,0xf5e307142cdd1},{1345,0xf75fb41638927},{1345,0xfaef8d0bcb85a},{1345,0xfc95b658ebb4d},{1345,0xfe3bdfa60be40},
{1346,0xdaa20799e4e7},{1346,0x1899d81efa33c},{1346,0x1ca55b2b0aa82},{1346,0x207b0205e6aac},{1346,0x2261879844f86},{1346,0x2a4af4ff1304e},{1346,0x376ca2fdb4d6f},{1346,0x3d4c2cb6c20cd},{1346,0x432eb27bb2aa4},{1346,0x49ce3c7cd1704},{1346,0x4b914b5096548},{1346,0x4ef0c1f9b07d9},{1346,0x51491754eccb5},{1346,0x52c81d5917c60},{1346,0x55dfee935bc15},{1346,0x56109120600c2},{1346,0x5ad80aebd34cf},{1346,0x63ed4a60c9c90},{1346,0x751277687bcc0},{1346,0x8113d9476d537},{1346,0x8a3f10ed7caf1},{1346,0x9175ca1043252},{1346,0x9d8f9fc2808d2},{1346,0xa7103b9e58112},{1346,0xad013de99f181},{1346,0xb3924b6467749},{1346,0xb3ec9307257d9},{1346,0xbbced4f69402d},{1346,0xc4749379fa219},{1346,0xcda97a4331312},{1346,0xd06c1b7c1edc7},{1346,0xd731f52437514},{1346,0xdaff0048f3ec7},{1346,0xe3e5e7c92bb77},{1346,0xe4a02a21772b9},{1346,0xf4031fd512b35},{1346,0xfaef8d0bcb85a},{1346,0xfb96d9ffbd260},{1346,0xfc95b658ebb4d},{1346,0xfe3bdfa60be40},
{1347,0xf0470e6930ed},{1347,0x1899d81efa33c},{1347,0x2ba095dc7701d},{1347,0x2ee3975e545bd},{1347,0x2f98ba3ba6644},{1347,0x376ca2fdb4d6f},{1347,0x3d4c2cb6c20cd},{1347,0x3ed36e842f4c5},{1347,0x432eb27bb2aa4},{1347,0x51491754eccb5},{1347,0x52c81d5917c60},{1347,0x5ad80aebd34cf},{1347,0x63ed4a60c9c90},{1347,0x692e784e2d0f6},{1347,0x6f0b1dfade957},{1347,0x98a7a645ea601},{1347,0x9d8f9fc2808d2},{1347,0xa7103b9e58112},{1347,0xb0de9b39eddb9},{1347,0xb3ec9307257d9},{1347,0xba60ca735bef3},{1347,0xc170e0cab282c},{1347,0xc88cb1c2fb0b0},{1347,0xcda97a4331312},{1347,0xd06c1b7c1edc7},{1347,0xd54a8e8f62133},{1347,0xd731f52437514},{1347,0xda2901a2a549f},{1347,0xeb70895139b1d},{1347,0xf4031fd512b35},{1347,0xfb96d9ffbd260},{1347,0xfc95b658ebb4d},
{1348,0x135da96c0323},{1348,0xf0470e6930ed},{1348,0x25fb20c4d9094},{1348,0x2ba095dc7701d},{1348,0x376ca2fdb4d6f},{1348,0x3963b65bac874},{1348,0x432eb27bb2aa4},{1348,0x51491754eccb5},{1348,0x52c81d5917c60},{1348,0x584f281cfd5cb},{1348,0x5ad80aebd34cf},{1348,0x617881f6dc463},{1348,0x63ed4a60c9c90},{1348,0x6af9e97e56367},{1348,0x7236f073a9f78},{1348,0x98a7a645ea601},{1348,0x9fbb9cbb7eb8f},{1348,0xb0de9b39eddb9},{1348,0xb3ec9307257d9},{1348,0xc170e0cab282c},{1348,0xc88cb1c2fb0b0},{1348,0xcda97a4331312},{1348,0xd06c1b7c1edc7},{1348,0xd4bdf865ec3ac},{1348,0xd54a8e8f62133},{1348,0xd731f52437514},{1348,0xda2901a2a549f},{1348,0xe59a8a7ca5025},{1348,0xf4031fd512b35},{1348,0xfc95b658ebb4d},
{1349,0x135da96c0323},{1349,0xf0470e6930ed},{1349,0xf9e6fef2de33},{1349,0x1e0705479b944},{1349,0x1f0b965a6aba7},{1349,0x376ca2fdb4d6f},{1349,0x3963b65bac874},{1349,0x3cf1d0a31f03b},{1349,0x3e5a9f3a3e71f},{1349,0x432eb27bb2aa4},{1349,0x52c81d5917c60},{1349,0x63ed4a60c9c90},{1349,0x6af9e97e56367},{1349,0x81d0c7e2204b4},{1349,0x90c8fd624b17a},{1349,0xa535abe55176a},{1349,0xa6dbd53271a5d},{1349,0xa881fe7f91d50},{1349,0xaa2827ccb2043},{1349,0xaeb6d76ceb12a},{1349,0xb0de9b39eddb9},{1349,0xb5c41949f0ed1},{1349,0xb813dc1bcecab},{1349,0xbca0aab7ebaee},{1349,0xcda97a4331312},{1349,0xd06c1b7c1edc7},{1349,0xd2db5505c077d},{1349,0xd54a8e8f62133},{1349,0xd7b9c81903ae9},{1349,0xe7cb8b5f9438a},{1349,0xe8c45adc6eee3},{1349,0xeb94d6c9b64f9},{1349,0xf4031fd512b35},{1349,0xfc95b658ebb4d},
{1350,0x135da96c0323},{1350,0x5ecd5dd29b20},{1350,0xf0470e6930ed},{1350,0xf9e6fef2de33},{1350,0x1237c5db93fb4},{1350,0x18e68c7eaf91b},{1350,0x1e0705479b944},{1350,0x1f0b965a6aba7},{1350,0x36f0f753aafe8},{1350,0x3cf1d0a31f03b},{1350,0x432eb27bb2aa4},{1350,0x5b620f1392107},{1350,0x6611f001c0096},{1350,0x683695a2b649c},{1350,0x81d0c7e2204b4},{1350,0x90395d3a8dfc5},{1350,0xa1e9594b11184},{1350,0xa6dbd53271a5d},{1350,0xa881fe7f91d50},{1350,0xaa2827ccb2043},{1350,0xabf8351aee3e3},{1350,0xb0de9b39eddb9},{1350,0xb266f64e52f02},{1350,0xb5c41949f0ed1},{1350,0xb813dc1bcecab},{1350,0xbca0aab7ebaee},{1350,0xbeb65d1ed70c8},{1350,0xcda97a4331312},{1350,0xd06c1b7c1edc7},{1350,0xd412f1ca91458},{1350,0xd42aea2879f2e},{1350,0xd54a8e8f62133},{1350,0xdc983b2c46e55},{1350,0xdd269b8f4a194},{1350,0xe1d587da0c8a9},{1350,0xf4031fd512b35},{1350,0xf76af82de0cf7},{1350,0xfc95b658ebb4d},
{1351,0x135da96c0323},{1351,0xf0470e6930ed},{1351,0x1237c5db93fb4},{1351,0x1e0705479b944},{1351,0x1f0b965a6aba7},{1351,0x35333ffd128fa},{1351,0x36f0f753aafe8},{1351,0x382a56d7abc2e},{1351,0x39104e80642f1},{1351,0x3d59a50f79424},{1351,0x446b5f354c160},{1351,0x47b7a3e9222a0},{1351,0x48b79be8a7174},{1351,0x5ca1801fd5b2a},{1351,0x64ff9d3144e93},{1351,0x683695a2b649c},{1351,0x81d0c7e2204b4},{1351,0x892cedc62e547},{1351,0xa1e9594b11184},{1351,0xa559d2be075a9},{1351,0xaa2827ccb2043},{1351,0xad0a87eb695e6},{1351,0xb0de9b39eddb9},{1351,0xb266f64e52f02},{1351,0xb48ab9c5f028b},{1351,0xb813dc1bcecab},{1351,0xc62febb1041ed},{1351,0xc952893407305},{1351,0xcda97a4331312},{1351,0xd06c1b7c1edc7},{1351,0xd54a8e8f62133},{1351,0xd6822b5432e0e},{1351,0xdba0fed6778bd},{1351,0xdd269b8f4a194},{1351,0xe1d587da0c8a9},{1351,0xf1de7a341c72f},{1351,0xf4031fd512b35},{1351,0xf4f07a8c96f71},
{1352,0x135da96c0323},{1352,0x17e00c976459},{1352,0x1e0705479b944},{1352,0x24f6bb3fb3a4b},{1352,0x35333ffd128fa},{1352,0x36a114f6c293b},{1352,0x36f0f753aafe8},{1352,0x382a56d7abc2e},{1352,0x40a5f7a9b9a0a},{1352,0x446b5f354c160},{1352,0x4f6c6da3ba560},{1352,0x5ca1801fd5b2a},{1352,0x62daf7904ea8d},{1352,0x64ff9d3144e93},{1352,0x6588c69982795},{1352,0x683695a2b649c},{1352,0x72edd1c7858ba},{1352,0x8190de2a11914},{1352,0x81d0c7e2204b4},{1352,0x872d6e87e3212},{1352,0x892cedc62e547},{1352,0xa4a0e011e62fd},{1352,0xa591a88b13bdd},{1352,0xaa2827ccb2043},{1352,0xac815e832bce4},{1352,0xb1d5f28e018c7},{1352,0xb266f64e52f02},{1352,0xb48ab9c5f028b},{1352,0xb6fd78cdf1b17},{1352,0xb813dc1bcecab},{1352,0xcda97a4331312},{1352,0xd54a8e8f62133},{1352,0xd6822b5432e0e},{1352,0xdc7001ea7def3},{1352,0xeb9375ddb33f0},{1352,0xf1de7a341c72f},{1352,0xf4031fd512b35},{1352,0xf4f07a8c96f71},
{1353,0x7c578576cf8e},{1353,0x1e0705479b944},{1353,0x2a379081997a5},{1353,0x2a74f5469a8ad},{1353,0x30d219bfa728a},{1353,0x36f0f753aafe8},{1353,0x40a5f7a9b9a0a},{1353,0x446b5f354c160},{1353,0x48e3447efea10},{1353,0x536be9c3bed01},{1353,0x5823bb6b7f66f},{1353,0x5f202f9e5b762},{1353,0x62fe1eafaed3a},{1353,0x6588c69982795},{1353,0x7147a87a655c7},{1353,0x72edd1c7858ba},{1353,0x890a6cbc3ea39},{1353,0x892cedc62e547},{1353,0x99a58ce36ab48},{1353,0xa23685bfb4f5a},{1353,0xad0a87eb695e6},{1353,0xb1d5f28e018c7},{1353,0xb266f64e52f02},{1353,0xb3ee0a03efc68},{1353,0xc1755f5c4e234},{1353,0xc33b33f5f95d3},{1353,0xd42aea2879f2e},{1353,0xd6822b5432e0e},{1353,0xf309431e128cb},{1353,0xf4031fd512b35},{1353,0xf48c493d50437},{1353,0xf73a18468413e},
{1354,0x7c578576cf8e},{1354,0xbe2003f0312f},{1354,0x1e0705479b944},{1354,0x2a74f5469a8ad},{1354,0x2fa2e0e7f6857},{1354,0x30d219bfa728a},{1354,0x40a5f7a9b9a0a},{1354,0x41c7e5f08f06c},{1354,0x446b5f354c160},{1354,0x5363c190e9f80},{1354,0x5f202f9e5b762},{1354,0x6588c69982795},{1354,0x6e06c187cd836},{1354,0x72477e6ce0327},{1354,0x73583f54cf313},{1354,0x7724a239dd6a8},{1354,0x798676fc06486},{1354,0x892cedc62e547},{1354,0x8949a74275ebd},{1354,0x8db7e8238bb05},{1354,0x8fb2b7e998c0f},{1354,0x99a58ce36ab48},{1354,0x9ae582e2d0dd1},{1354,0xa23685bfb4f5a},{1354,0xad0a87eb695e6},{1354,0xb1d5f28e018c7},{1354,0xb3ee0a03efc68},{1354,0xc1755f5c4e234},{1354,0xc33b33f5f95d3},{1354,0xd0cb68945cd0e},{1354,0xd1b3e3e2a3084},{1354,0xd6822b5432e0e},{1354,0xf26c935c122a8},{1354,0xf48c493d50437},{1354,0xf73a18468413e},{1354,0xfcf4ecf589f31},
{1355,0x7c578576cf8e},{1355,0x15fd982c0022d},{1355,0x1e0705479b944},{1355,0x2184efcd9d91f},{1355,0x2435b800934cc},{1355,0x2a74f5469a8ad},{1355,0x2fa2e0e7f6857},{1355,0x3b9cd1e9914b1},{1355,0x40a5f7a9b9a0a},{1355,0x41c7e5f08f06c},{1355,0x446b5f354c160},{1355,0x5363c190e9f80},{1355,0x5d13d69819a5e},{1355,0x6588c69982795},{1355,0x73583f54cf313},{1355,0x7724a239dd6a8},{1355,0x7c62de40e3155},{1355,0x892cedc62e547},{1355,0x8949a74275ebd},{1355,0x90da3de742f01},{1355,0x99a58ce36ab48},{1355,0xad0a87eb695e6},{1355,0xae210721fcd72},{1355,0xb1d5f28e018c7},{1355,0xb3ee0a03efc68},{1355,0xc1755f5c4e234},{1355,0xc33b33f5f95d3},{1355,0xd0cb68945cd0e},{1355,0xd5794b6e357da},{1355,0xd6822b5432e0e},{1355,0xd954c1b06b817},{1355,0xf57c022614157},{1355,0xf73a18468413e},{1355,0xfd15a2595ef40},
{1356,0x7c578576cf8e},{1356,0x15f97b0808683},{1356,0x15fd982c0022d},{1356,0x17b1b2a799cc8},{1356,0x2435b800934cc},{1356,0x2a74f5469a8ad},{1356,0x326dd7d52676b},{1356,0x40a5f7a9b9a0a},{1356,0x465f53800d292},{1356,0x51dac027c5e99},{1356,0x5363c190e9f80},{1356,0x54ff3dc9a2a84},{1356,0x5adbab862a78b},{1356,0x726011e1cb779},{1356,0x73583f54cf313},{1356,0x76124f69624a5},{1356,0x76b9623bc96bc},{1356,0x8ee6499c81dcf},{1356,0x99a58ce36ab48},{1356,0x99cb00f626436},{1356,0xa3e34a02b3c5d},{1356,0xa83cb1f524760},{1356,0xb3ee0a03efc68},{1356,0xc1755f5c4e234},{1356,0xc33b33f5f95d3},{1356,0xced735f779440},{1356,0xd6822b5432e0e},{1356,0xde9957c683a45},{1356,0xf73a18468413e},{1356,0xfd15a2595ef40},
{1357,0x804197592a6},{1357,0x3e1d08b31f27},{1357,0x146b595b11c38},{1357,0x15f97b0808683},{1357,0x15fd982c0022d},{1357,0x2435b800934cc},{1357,0x25de40279b862},{1357,0x33ec2c29e3063},{1357,0x3cfa0ffa4a1e6},{1357,0x40a5f7a9b9a0a},{1357,0x465f53800d292},{1357,0x60baf0a33d90f},{1357,0x6588c69982795},{1357,0x65cfde55c4c98},{1357,0x726011e1cb779},{1357,0x73583f54cf313},{1357,0x76b9623bc96bc},{1357,0x847bd14c31037},{1357,0x87be96d099725},{1357,0x8ee6499c81dcf},{1357,0x99a58ce36ab48},{1357,0x99cb00f626436},{1357,0x9acda2ebe26a6},{1357,0xa3e34a02b3c5d},{1357,0xa83cb1f524760},{1357,0xa8f8cb8da96ac},{1357,0xb3ee0a03efc68},{1357,0xb6e83b85f253b},{1357,0xb82696252c922},{1357,0xc72fbca7d3002},{1357,0xc794844ff7516},{1357,0xcbfd929e17e88},{1357,0xd76d3fb8f690c},{1357,0xd94b8448a1308},{1357,0xe09a7460c0635},{1357,0xefbe73470b5b1},{1357,0xf73a18468413e},
{1358,0x804197592a6},{1358,0xb217f1b931e7},{1358,0x146b595b11c38},{1358,0x15fd982c0022d},{1358,0x24f4e22af1948},{1358,0x33ec2c29e3063},{1358,0x3cfa0ffa4a1e6},{1358,0x3f37a0b424be8},{1358,0x40a5f7a9b9a0a},{1358,0x465f53800d292},{1358,0x492e2ca475bec},{1358,0x60fad079d3a6d},{1358,0x6588c69982795},{1358,0x7169dcc3f039a},{1358,0x726011e1cb779},{1358,0x73583f54cf313},{1358,0x847bd14c31037},{1358,0x87be96d099725},{1358,0x8ee6499c81dcf},{1358,0x9d6e5c4cdb69c},{1358,0xa83cb1f524760},{1358,0xa8f8cb8da96ac},{1358,0xb6e83b85f253b},{1358,0xb82696252c922},{1358,0xc72fbca7d3002},{1358,0xc794844ff7516},{1358,0xcbfd929e17e88},{1358,0xd0458ced0e262},{1358,0xd76d3fb8f690c},{1358,0xe842ce4792a23},{1358,0xefbe73470b5b1},{1358,0xf002155a0e443},{1358,0xf73a18468413e},
{1359,0x804197592a6},{1359,0xb217f1b931e7},{1359,0x15fd982c0022d},{1359,0x24f4e22af1948},{1359,0x3cfa0ffa4a1e6},{1359,0x3e2d8577db588},{1359,0x3ec0c87eaf4b0},{1359,0x465f53800d292},{1359,0x492e2ca475bec},{1359,0x60d20a26b75b4},{1359,0x60fad079d3a6d},{1359,0x8214e6510e8f4},{1359,0x847bd14c31037},{1359,0x8587b4d3ad771},{1359,0x87be96d099725},{1359,0x8e177d38bad43},{1359,0x8ee6499c81dcf},{1359,0xa49e8e605d903},{1359,0xa83cb1f524760},{1359,0xa8f8cb8da96ac},{1359,0xaaa39cf046ea3},{1359,0xaba67c216e93b},{1359,0xb08fb0d96afe7},{1359,0xc794844ff7516},{1359,0xce6cec4efe96f},{1359,0xd0458ced0e262},{1359,0xd76d3fb8f690c},{1359,0xe842ce4792a23},{1359,0xee8afdc97a20f},{1359,0xefbe73470b5b1},
{1360,0x804197592a6},{1360,0x15fd982c0022d},{1360,0x1653377498583},{1360,0x1a6ca4cee7e5f},{1360,0x1cbe1258e47f4},{1360,0x1f1bfa59a7110},{1360,0x2f35bfcbac1d1},{1360,0x39a2bfde1db23},{1360,0x3cfa0ffa4a1e6},{1360,0x3ec0c87eaf4b0},{1360,0x492e2ca475bec},{1360,0x5299ea5224315},{1360,0x59862fb1d6346},{1360,0x640a62f3a83de},{1360,0x672e5988c63dd},{1360,0x6a25d17b973e4},{1360,0x6b1fcba0f7c7d},{1360,0x6dc186ef9f45c},{1360,0x7f203339c9628},{1360,0x8587b4d3ad771},{1360,0x87be96d099725},{1360,0x8e177d38bad43},{1360,0xa0667f1865074},{1360,0xa8f8cb8da96ac},{1360,0xaba67c216e93b},{1360,0xadc364f327f1f},{1360,0xbb2d25c026bb3},{1360,0xc794844ff7516},{1360,0xc931e8ab87173},{1360,0xd16ca9c93d3bf},{1360,0xe842ce4792a23},{1360,0xefbe73470b5b1},{1360,0xf2bf1b484e656},{1360,0xf95994fe1edb2},
{1361,0x925ef3936c9c},{1361,0xb814b2b445fa},{1361,0xfbb9c615d7fe},{1361,0x1653377498583},{1361,0x1a6ca4cee7e5f},{1361,0x2bb35a6499023},{1361,0x3245524580b42},{1361,0x3ec0c87eaf4b0},{1361,0x40095611ab5d0},{1361,0x42fb5b6e2040e},{1361,0x4dc097eddaefa},{1361,0x59862fb1d6346},{1361,0x640a62f3a83de},{1361,0x7f203339c9628},{1361,0x95cf73a1cfc7a},{1361,0x9b79b7cd932e7},{1361,0xa4a2517c70c7b},{1361,0xaa38252bd9b19},{1361,0xaba67c216e93b},{1361,0xc58a00bb31863},{1361,0xc794844ff7516},{1361,0xd405c87b8133d},{1361,0xe0770ca70b164},{1361,0xe842ce4792a23},{1361,0xefbe73470b5b1},{1361,0xf2bf1b484e656},{1361,0xf75f2444051e6},{1361,0xf95994fe1edb2},{1361,0xfc7359859826a},
{1362,0x6d683a2771f3},{1362,0x925ef3936c9c},{1362,0xb814b2b445fa},{1362,0xe6a0de73ba10},{1362,0x141faec2146f7},{1362,0x1653377498583},{1362,0x1a6ca4cee7e5f},{1362,0x3ec0c87eaf4b0},{1362,0x4b77624928573},{1362,0x4e40c58ffb3aa},{1362,0x5c737da7e6aa3},{1362,0x640a62f3a83de},{1362,0x6ba1483f69d19},{1362,0x778ca8f504e0b},{1362,0x7ceceb4abc02c},{1362,0x7f203339c9628},{1362,0x86819740a8d45},{1362,0x8db8e6d5d22ea},{1362,0x95cf73a1cfc7a},{1362,0x995ce75a95cdf},{1362,0x9d9a110223b8d},{1362,0x9eff9c6b834ad},{1362,0xa4a2517c70c7b},{1362,0xab7a2f4e75598},{1362,0xaeb1fbf8e38c8},{1362,0xb255d03c8d22d},{1362,0xc4900695d0fca},{1362,0xc58a00bb31863},{1362,0xc683fae0920fc},{1362,0xc794844ff7516},{1362,0xd405c87b8133d},{1362,0xe0770ca70b164},{1362,0xea20b7b17e559},{1362,0xefbe73470b5b1},{1362,0xf2bf1b484e656},{1362,0xf769e2d11ba5d},{1362,0xf95994fe1edb2},
{1363,0x6d683a2771f3},{1363,0xb814b2b445fa},{1363,0xe6a0de73ba10},{1363,0x1653377498583},{1363,0x1c9a9698db224},{1363,0x3e17e878e05b7},{1363,0x3ec0c87eaf4b0},{1363,0x42fb5b6e2040e},{1363,0x489e107f0dbdc},{1363,0x4b77624928573},{1363,0x4e40c58ffb3aa},{1363,0x54084147b9137},{1363,0x56e56e80a5516},{1363,0x640a62f3a83de},{1363,0x752c7ff80cc60},{1363,0x7f203339c9628},{1363,0x89fcdd6e70205},{1363,0x9eff9c6b834ad},{1363,0xab7a2f4e75598},{1363,0xaeb1fbf8e38c8},{1363,0xafe7bb9e4bc17},{1363,0xb8cfecbed2765},{1363,0xbb2340246d6ef},{1363,0xc0a81e004ed66},{1363,0xc4900695d0fca},{1363,0xc58a00bb31863},{1363,0xc794844ff7516},{1363,0xc931e8ab87173},{1363,0xca6be37614360},{1363,0xd405c87b8133d},{1363,0xda56fafec28e7},{1363,0xe0770ca70b164},{1363,0xe479092530615},{1363,0xece850d294f8b},{1363,0xefbe73470b5b1},{1363,0xf2bf1b484e656},{1363,0xf95994fe1edb2},
{1364,0x6d683a2771f3},{1364,0xa14ed8d45fbf},{1364,0xb814b2b445fa},{1364,0x25d40e19f6d1b},{1364,0x2cb836fa4da84},{1364,0x3125daa057ec4},{1364,0x42fb5b6e2040e},{1364,0x4550bf3286e11},{1364,0x4b6f6b07847c3},{1364,0x4b77624928573},{1364,0x54084147b9137},{1364,0x56e56e80a5516},{1364,0x640a62f3a83de},{1364,0x752c7ff80cc60},{1364,0x7f203339c9628},{1364,0x93ba3249a8511},{1364,0x9eff9c6b834ad},{1364,0xa240b7cd59aa1},{1364,0xa8543159873fa},{1364,0xab34fee07b179},{1364,0xafe7bb9e4bc17},{1364,0xb20275cfa6c6f},{1364,0xb8efa7410be3f},{1364,0xbdffd85a0a7fd},{1364,0xc58a00bb31863},{1364,0xc794844ff7516},{1364,0xca6be37614360},{1364,0xd1882f79451cc},{1364,0xd405c87b8133d},{1364,0xda56fafec28e7},{1364,0xe0770ca70b164},{1364,0xe2d5511c81a51},{1364,0xe479092530615},{1364,0xefbe73470b5b1},{1364,0xf28fcdcf82198},{1364,0xf2bf1b484e656},
{1365,0x53493ce9e8d},{1365,0xa14ed8d45fbf},{1365,0x1b47618dfcda1},{1365,0x2cb836fa4da84},{1365,0x3125daa057ec4},{1365,0x37f3518f839ba},{1365,0x42fb5b6e2040e},{1365,0x4550bf3286e11},{1365,0x4b6f6b07847c3},{1365,0x4b77624928573},{1365,0x5112201871f91},{1365,0x54084147b9137},{1365,0x55ec351a0b856},{1365,0x55fc35927a269},{1365,0x56e56e80a5516},{1365,0x640a62f3a83de},{1365,0x7068b12497302},{1365,0x73788d0b5dc2d},{1365,0x7f203339c9628},{1365,0x8cc92101754cd},{1365,0x92e72ea3f572d},{1365,0x93ba3249a8511},{1365,0x9d96ef2747eba},{1365,0x9eff9c6b834ad},{1365,0xa1d0f6f3fa094},{1365,0xa240b7cd59aa1},{1365,0xa8543159873fa},{1365,0xb20275cfa6c6f},{1365,0xb8efa7410be3f},{1365,0xbdffd85a0a7fd},{1365,0xc58a00bb31863},{1365,0xca6be37614360},{1365,0xd1882f79451cc},{1365,0xd405c87b8133d},{1365,0xda56fafec28e7},{1365,0xe0770ca70b164},{1365,0xf127208b46ba4},{1365,0xf28fcdcf82198},{1365,0xf2bf1b484e656},{1365,0xfabc2d9902f9e},{1365,0xfe4ae074edbf9},
{1366,0x1b47618dfcda1},{1366,0x1ee445f6ca9c4},{1366,0x225ba8f7a2c47},{1366,0x3125daa057ec4},{1366,0x348c9617edc3f},{1366,0x37a7d16adaf6c},{1366,0x4a06bdc3491cf},{1366,0x4b6f6b07847c3},{1366,0x54084147b9137},{1366,0x55ec351a0b856},{1366,0x5a59dccc4d31f},{1366,0x5ade184d5cd66},{1366,0x640a62f3a83de},{1366,0x6a863429ea73f},{1366,0x7068b12497302},{1366,0x7f203339c9628},{1366,0x8cc92101754cd},{1366,0x8dc31b26d5d66},{1366,0x93ba3249a8511},{1366,0x9ac5949ed12d3},{1366,0xa1d0f6f3fa094},{1366,0xa240b7cd59aa1},{1366,0xa8543159873fa},{1366,0xa92990de53698},{1366,0xb193e63672cac},{1366,0xb20275cfa6c6f},{1366,0xb69f14d15c00a},{1366,0xbcee3069662e3},{1366,0xc58a00bb31863},{1366,0xc8135e7b65029},{1366,0xca6be37614360},{1366,0xd1882f79451cc},{1366,0xd2977c60b2ab6},{1366,0xd405c87b8133d},{1366,0xd4c4883d4f3ae},{1366,0xda56fafec28e7},{1366,0xe0770ca70b164},{1366,0xe72f20675ad6f},{1366,0xf127208b46ba4},{1366,0xf28fcdcf82198},{1366,0xf2bf1b484e656},{1366,0xfd50e64f8d360},{1366,0xfe0ee12c291c4},
{1367,0x181e37ea6eb9b},{1367,0x2bad504ed4bf6},{1367,0x3125daa057ec4},{1367,0x37a7d16adaf6c},{1367,0x42fb5b6e2040e},{1367,0x4a06bdc3491cf},{1367,0x54084147b9137},{1367,0x640a62f3a83de},{1367,0x7068b12497302},{1367,0x734785f3ca457},{1367,0x75ebda5ba1932},{1367,0x7f203339c9628},{1367,0x93ba3249a8511},{1367,0x9b50efaa2d74a},{1367,0x9c6775987bbc6},{1367,0xa8543159873fa},{1367,0xb20275cfa6c6f},{1367,0xc58a00bb31863},{1367,0xc6aab13729a35},{1367,0xca6be37614360},{1367,0xd405c87b8133d},{1367,0xd4c4883d4f3ae},{1367,0xe0770ca70b164},{1367,0xe479092530615},{1367,0xe6222e89240b5},{1367,0xe72f20675ad6f},{1367,0xf28fcdcf82198},{1367,0xf2bf1b484e656},
{1368,0x7f56a216e319},{1368,0xbe33e5481279},{1368,0x181e37ea6eb9b},{1368,0x2bad504ed4bf6},{1368,0x2c3865d5425f0},{1368,0x2f9b2481e7b56},{1368,0x3799e0a1b14ff},{1368,0x37a7d16adaf6c},{1368,0x422783f64522b},{1368,0x42fb5b6e2040e},{1368,0x47dbd9a13e7ea},{1368,0x4f65367c3b4d3},{1368,0x51edabf1b13b2},{1368,0x53530aaf4e433},{1368,0x54084147b9137},{1368,0x640a62f3a83de},{1368,0x7068b12497302},{1368,0x75ebda5ba1932},{1368,0x770af0dcb4d10},{1368,0x7cf73cb0ca6f3},{1368,0x7f203339c9628},{1368,0x7fada94eead94},{1368,0x8038ec4611fd2},{1368,0x92a4fde1b8863},{1368,0x93ba3249a8511},{1368,0x9c6775987bbc6},{1368,0xb20275cfa6c6f},{1368,0xb43dd41591d65},{1368,0xc58a00bb31863},{1368,0xcdb6138c527f7},{1368,0xd405c87b8133d},{1368,0xe0770ca70b164},{1368,0xe6222e89240b5},{1368,0xf54665108fb69},
{1369,0x184f44662a60},{1369,0x63d8c31ae66f},{1369,0xbe33e5481279},{1369,0x10c276dfd5a08},{1369,0x152f1e29ff833},{1369,0x2bad504ed4bf6},{1369,0x2f9b2481e7b56},{1369,0x3799e0a1b14ff},{1369,0x37a7d16adaf6c},{1369,0x422783f64522b},{1369,0x47dbd9a13e7ea},{1369,0x51edabf1b13b2},{1369,0x53530aaf4e433},{1369,0x55f31e4a735e4},{1369,0x62b57648d8669},{1369,0x640a62f3a83de},{1369,0x71dc0621498b9},{1369,0x7221a79cdd1d8},{1369,0x770af0dcb4d10},{1369,0x7f203339c9628},{1369,0x7fada94eead94},{1369,0x8038ec4611fd2},{1369,0x8858b77d39602},{1369,0x92a4fde1b8863},{1369,0x93ba3249a8511},{1369,0x9a7c5bdd34166},{1369,0xa253b9d8afa69},{1369,0xb20275cfa6c6f},{1369,0xb3ae7b8c7aa31},{1369,0xb895feeae57ba},{1369,0xd24341718fc63},{1369,0xd9178e58c1706},{1369,0xee3ac2bbf546c},{1369,0xf0eeff361ecbe},{1369,0xf54665108fb69},{1369,0xf6f445f45e160},{1369,0xf8a9657d13258},
{1370,0x184f44662a60},{1370,0xbe33e5481279},{1370,0x2bad504ed4bf6},{1370,0x2c3865d5425f0},{1370,0x2f9b2481e7b56},{1370,0x3799e0a1b14ff},{1370,0x37a7d16adaf6c},{1370,0x53530aaf4e433},{1370,0x55f31e4a735e4},{1370,0x5cfec09f0dce1},{1370,0x62b57648d8669},{1370,0x6398c9fcd3251},{1370,0x640a62f3a83de},{1370,0x6b16054842adb},{1370,0x7221a79cdd1d8},{1370,0x770af0dcb4d10},{1370,0x7f203339c9628},{1370,0x7fada94eead94},{1370,0x8858b77d39602},{1370,0x92a4fde1b8863},{1370,0x93ba3249a8511},{1370,0x974e0baf9c866},{1370,0x9a7c5bdd34166},{1370,0xa253b9d8afa69},{1370,0xa92292d7cec25},{1370,0xb20275cfa6c6f},{1370,0xb895feeae57ba},{1370,0xbe7abd3781eca},{1370,0xc25498bfe38e8},{1370,0xcdf93245ff300},{1370,0xd366d0f289f7e},{1370,0xe38198aedb6ae},{1370,0xf6f445f45e160},{1370,0xf8a9657d13258},{1370,0xff0a5638edd9c},
{1371,0x87324a7d0905},{1371,0xbe33e5481279},{1371,0x1212d3e709041},{1371,0x12f6cce80ca6f},{1371,0x2bad504ed4bf6},{1371,0x2c3865d5425f0},{1371,0x2f9b2481e7b56},{1371,0x3799e0a1b14ff},{1371,0x48ac18d457b95},{1371,0x4a4eeaa4f7bde},{1371,0x4e69c16f768fb},{1371,0x4ee77bf5d8ee7},{1371,0x53530aaf4e433},{1371,0x5cfec09f0dce1},{1371,0x6398c9fcd3251},{1371,0x640a62f3a83de},{1371,0x6b16054842adb},{1371,0x6f6ccb5b5c8af},{1371,0x7221a79cdd1d8},{1371,0x770af0dcb4d10},{1371,0x77467f4a92f6c},{1371,0x7a2207c75885b},{1371,0x7f203339c9628},{1371,0x8858b77d39602},{1371,0x8acd9fe63cf60},{1371,0x93ba3249a8511},{1371,0x955bd343e14c9},{1371,0x95d98dca43ab5},{1371,0x9a7c5bdd34166},{1371,0x9e8702f6a311a},{1371,0xaddfc437e1ac0},{1371,0xb20275cfa6c6f},{1371,0xb895feeae57ba},{1371,0xbe7abd3781eca},{1371,0xc6bb5ecc4a5c3},{1371,0xcdf93245ff300},{1371,0xd366d0f289f7e},{1371,0xdec84bbef8e8d},{1371,0xf8a9657d13258},
{1372,0xbe33e5481279},{1372,0x1212d3e709041},{1372,0x12f6cce80ca6f},{1372,0x1ace2ae388372},{1372,0x24d65a445d2a0},{1372,0x4ee77bf5d8ee7},{1372,0x5005fb9e82dbd},{1372,0x6398c9fcd3251},{1372,0x640a62f3a83de},{1372,0x7221a79cdd1d8},{1372,0x7a2207c75885b},{1372,0x8acd9fe63cf60},{1372,0x9a7c5bdd34166},{1372,0x9e8702f6a311a},{1372,0xaddfc437e1ac0},{1372,0xbc2b8765feff6},{1372,0xbe7abd3781eca},{1372,0xc0a34a9535d1f},{1372,0xc6bb5ecc4a5c3},{1372,0xf8a9657d13258},
{1373,0x6b1591a9a132},{1373,0x709203d144af},{1373,0x9f104b6ee1b5},{1373,0xbe33e5481279},{1373,0xbe93e81517c6},{1373,0x14ab4a079f1ba},{1373,0x1ace2ae388372},{1373,0x2c3865d5425f0},{1373,0x32e25926779ec},{1373,0x36dc3d5f7512c},{1373,0x4edc0de9a1717},{1373,0x4ee77bf5d8ee7},{1373,0x51bf728feaaae},{1373,0x52cde564e2969},{1373,0x6398c9fcd3251},{1373,0x640a62f3a83de},{1373,0x66af5a81d5da9},{1373,0x69a560325528e},{1373,0x7221a79cdd1d8},{1373,0x77467f4a92f6c},{1373,0x968277a436a26},{1373,0x96e841a9e9946},{1373,0x9a7c5bdd34166},{1373,0xbc2b8765feff6},{1373,0xbd408f42b82ed},{1373,0xbe7abd3781eca},{1373,0xc6bb5ecc4a5c3},{1373,0xdc0f07d51ada1},{1373,0xed080a4ec3477},{1373,0xf68e7beeab240},{1373,0xfacd14e8f1b4e},{1373,0xff29c4da86717},
{1374,0x3e46e816c178},{1374,0x6b1591a9a132},{1374,0x709203d144af},{1374,0x73c053fedc3f},{1374,0x9f104b6ee1b5},{1374,0xbe33e5481279},{1374,0xee8930fb6efb},{1374,0x170cb642b133e},{1374,0x1974df77ee391},{1374,0x2c3865d5425f0},{1374,0x36c4e759e0a03},{1374,0x36dc3d5f7512c},{1374,0x37f9d0ba7cdd2},{1374,0x3efbec329684f},{1374,0x52cde564e2969},{1374,0x5999267f2116a},{1374,0x6398c9fcd3251},{1374,0x640a62f3a83de},{1374,0x66af5a81d5da9},{1374,0x69a560325528e},{1374,0x6ac3b9bd19904},{1374,0x7221a79cdd1d8},{1374,0x7a02bb4e4c678},{1374,0x901af52cd39ea},{1374,0x906cac9fc5a9f},{1374,0x949f3b7a4dbe7},{1374,0x94f3d81604d6d},{1374,0x968277a436a26},{1374,0x9a7c5bdd34166},{1374,0xa6233e49694f0},{1374,0xb85721a7b44c4},{1374,0xba67e81b9f0e3},{1374,0xbc2b8765feff6},{1374,0xbd408f42b82ed},{1374,0xbe7abd3781eca},{1374,0xc6bb5ecc4a5c3},{1374,0xd9e1b48d86d1d},{1374,0xdc0f07d51ada1},{1374,0xe83c199f2a602},{1374,0xea1471e5aab3b},{1374,0xfacd14e8f1b4e},{1374,0xff29c4da86717},{1374,0xffc6ee028167e},
{1375,0x3e46e816c178},{1375,0x6b1591a9a132},{1375,0x90612599304f},{1375,0xbe33e5481279},{1375,0x170cb642b133e},{1375,0x23339d2f807e6},{1375,0x36c4e759e0a03},{1375,0x4d2ed8ab59e2a},{1375,0x51e6a749763b9},{1375,0x5b486a78204e9},{1375,0x6398c9fcd3251},{1375,0x64aa2da6ca618},{1375,0x66af5a81d5da9},{1375,0x66fbb2061c101},{1375,0x6ac3b9bd19904},{1375,0x6e0bf0d574748},{1375,0x7221a79cdd1d8},{1375,0x776db4041e877},{1375,0x7a02bb4e4c678},{1375,0x7a12ac103dee4},{1375,0x80cf7732c89a7},{1375,0x869ae6c040d26},{1375,0x901af52cd39ea},{1375,0x906cac9fc5a9f},{1375,0x949f3b7a4dbe7},{1375,0xa6233e49694f0},{1375,0xa6d69df13eec6},{1375,0xb12762d7b4273},{1375,0xb85721a7b44c4},{1375,0xba67e81b9f0e3},{1375,0xbc2b8765feff6},{1375,0xbe7abd3781eca},{1375,0xc6bb5ecc4a5c3},{1375,0xd04e89ace8970},{1375,0xd233d08294afc},{1375,0xd9e1b48d86d1d},{1375,0xdc0f07d51ada1},{1375,0xe407dbb028afe},{1375,0xe83c199f2a602},{1375,0xee34e976fd4a0},{1375,0xf825a40576ec0},{1375,0xff29c4da86717},
{1376,0x3e46e816c178},{1376,0x170cb642b133e},{1376,0x1974df77ee391},{1376,0x22d6e9bcad8db},{1376,0x36c4e759e0a03},{1376,0x3722384360192},{1376,0x37dab66db46fc},{1376,0x40e837ffe5621},{1376,0x485daf614097e},{1376,0x4e9b2c3ee672f},{1376,0x50413ce767730},{1376,0x6094491a2751d},{1376,0x6398c9fcd3251},{1376,0x66af5a81d5da9},{1376,0x6ac3b9bd19904},{1376,0x7221a79cdd1d8},{1376,0x77467f4a92f6c},{1376,0x7a02bb4e4c678},{1376,0x901af52cd39ea},{1376,0x906cac9fc5a9f},{1376,0x949f3b7a4dbe7},{1376,0x9b1f19bb1e76d},{1376,0xa293116409cdd},{1376,0xa6233e49694f0},{1376,0xa62f4f33e5559},{1376,0xa6d69df13eec6},{1376,0xb12762d7b4273},{1376,0xba67e81b9f0e3},{1376,0xbc2b8765feff6},{1376,0xbe7abd3781eca},{1376,0xc6bb5ecc4a5c3},{1376,0xc72fabf449d79},{1376,0xd04e89ace8970},{1376,0xd233d08294afc},{1376,0xd5181f1d37b47},{1376,0xd9e1b48d86d1d},{1376,0xdc0f07d51ada1},{1376,0xe8563ef4b61ad},{1376,0xee34e976fd4a0},{1376,0xf69b352f61824},{1376,0xf6a7ee7017e08},{1376,0xff29c4da86717},
{1377,0x3e46e816c178},{1377,0x40db5125633f},{1377,0x748be80a4223},{1377,0x170cb642b133e},{1377,0x19247cbf5a363},{1377,0x1974df77ee391},{1377,0x22d6e9bcad8db},{1377,0x2c7422736b656},{1377,0x36c4e759e0a03},{1377,0x371bdba304ea0},{1377,0x3722384360192},{1377,0x37dab66db46fc},{1377,0x485daf614097e},{1377,0x6094491a2751d},{1377,0x6398c9fcd3251},{1377,0x66af5a81d5da9},{1377,0x6ac3b9bd19904},{1377,0x7221a79cdd1d8},{1377,0x77467f4a92f6c},{1377,0x7a02bb4e4c678},{1377,0x84818a2d42c09},{1377,0x949f3b7a4dbe7},{1377,0xa6233e49694f0},{1377,0xa62f4f33e5559},{1377,0xa6d69df13eec6},{1377,0xb12762d7b4273},{1377,0xba67e81b9f0e3},{1377,0xbc2b8765feff6},{1377,0xbe7abd3781eca},{1377,0xc6bb5ecc4a5c3},{1377,0xc6d4d14db718b},{1377,0xd5181f1d37b47},{1377,0xd9b716c9b3751},{1377,0xe04b152bc98f6},{1377,0xe8563ef4b61ad},
{1378,0x3f83a0df0aba},{1378,0x748be80a4223},{1378,0x170cb642b133e},{1378,0x182c487a6bbe7},{1378,0x18b4ce508a255},{1378,0x1974df77ee391},{1378,0x22d6e9bcad8db},{1378,0x36c4e759e0a03},{1378,0x3722384360192},{1378,0x37dab66db46fc},{1378,0x39ee4d0b075a6},{1378,0x41b5996b6a6fc},{1378,0x485daf614097e},{1378,0x949f3b7a4dbe7},{1378,0x96c215e7c679a},{1378,0x96e1e5098e654},{1378,0x9f74b92470e76},{1378,0xa407e0502945c},{1378,0xa6d69df13eec6},{1378,0xad69a37ed358b},{1378,0xaecd0ac2d594f},{1378,0xb12762d7b4273},{1378,0xb6cb66ad7d6bb},{1378,0xba67e81b9f0e3},{1378,0xc02d29dc277ea},{1378,0xc56f3cd0b3ce2},{1378,0xc6bb5ecc4a5c3},{1378,0xc6d4d14db718b},{1378,0xc98eed0ad191a},{1378,0xd2f0b0397ba49},{1378,0xdc52736825b79},{1378,0xe8563ef4b61ad},{1378,0xfb63337799d3e},
{1379,0x3f83a0df0aba},{1379,0x728ef5edc369},{1379,0x107a9e446e3e7},{1379,0x170cb642b133e},{1379,0x182c487a6bbe7},{1379,0x18b4ce508a255},{1379,0x22d6e9bcad8db},{1379,0x287d81a6dc472},{1379,0x2ef1ed490a392},{1379,0x2f1ebfa20367c},{1379,0x3722384360192},{1379,0x373baac4ccd5a},{1379,0x37dab66db46fc},{1379,0x40bbfc6c6b0c5},{1379,0x4636407d84881},{1379,0x4cac8d28b8b79},{1379,0x6606a41080721},{1379,0x66fee05649a7a},{1379,0x751f1066d6e6e},{1379,0x949f3b7a4dbe7},{1379,0x96c215e7c679a},{1379,0x9d1b5ad7f6ab0},{1379,0x9f74b92470e76},{1379,0xa407e0502945c},{1379,0xae7cc5a91c24d},{1379,0xaecd0ac2d594f},{1379,0xb12762d7b4273},{1379,0xb6cb66ad7d6bb},{1379,0xc02d29dc277ea},{1379,0xc56f3cd0b3ce2},{1379,0xc6d4d14db718b},{1379,0xc98eed0ad191a},{1379,0xd2f0b0397ba49},{1379,0xd6e573908b079},{1379,0xe8563ef4b61ad},{1379,0xf69806df33eab},{1379,0xfb63337799d3e},
{1380,0xecc0116701b},{1380,0x3f83a0df0aba},{1380,0x59beade8620a},{1380,0x728ef5edc369},{1380,0x1b9c4e5baa48e},{1380,0x1fc51bf4c6bd8},{1380,0x2b6dcd3b9c654},{1380,0x2fd58ffab9609},{1380,0x3722384360192},{1380,0x3e6b0f11bdd8a},{1380,0x5ccfe3d35d80e},{1380,0x6571433006a65},{1380,0x66fee05649a7a},{1380,0x72f7a1831ad71},{1380,0x751f1066d6e6e},{1380,0x78f1afa20f99c},{1380,0x7ef062afec067},{1380,0x949f3b7a4dbe7},{1380,0x9d1b5ad7f6ab0},{1380,0x9f30763961b3f},{1380,0x9f74b92470e76},{1380,0xa407e0502945c},{1380,0xaecd0ac2d594f},{1380,0xb12762d7b4273},{1380,0xb403dcc834e11},{1380,0xc6d4d14db718b},{1380,0xd2f0b0397ba49},{1380,0xd5181f1d37b47},{1380,0xdf9dd942a0913},{1380,0xe8563ef4b61ad},{1380,0xea58b4d0b9e72},{1380,0xf46b5e10094f4},{1380,0xf69806df33eab},
{1381,0xecc0116701b},{1381,0x59beade8620a},{1381,0x728ef5edc369},{1381,0x8864936c67ee},{1381,0x138a6dc511571},{1381,0x1fc51bf4c6bd8},{1381,0x24214ecdd1825},{1381,0x2b2b0e3ea5b58},{1381,0x2b6dcd3b9c654},{1381,0x3135e758f1d0c},{1381,0x3722384360192},{1381,0x3b05e83c1ef45},{1381,0x5089ca72f3ab5},{1381,0x50dfcb11c0e52},{1381,0x6571433006a65},{1381,0x66fee05649a7a},{1381,0x69eeb82571532},{1381,0x78f1afa20f99c},{1381,0x81df94083909c},{1381,0x8b7fc0e9a20e6},{1381,0x8cbbba395ea77},{1381,0x9d1b5ad7f6ab0},{1381,0x9f74b92470e76},{1381,0xa407e0502945c},{1381,0xaecd0ac2d594f},{1381,0xbac434c78ff89},{1381,0xbc8fffb6b07d1},{1381,0xc6d4d14db718b},{1381,0xc971a4d0a6809},{1381,0xd2f0b0397ba49},{1381,0xd9782f18db287},{1381,0xdf9dd942a0913},{1381,0xe2b28d18dcaeb},{1381,0xe3fa0c1bab560},{1381,0xf46b5e10094f4},{1381,0xf69806df33eab},{1381,0xfff5dd61058f4},
{1382,0x684ec3219cb9},{1382,0x728ef5edc369},{1382,0x8864936c67ee},{1382,0x8b68c851f37e},{1382,0x1b68e91bbbf8b},{1382,0x1fc51bf4c6bd8},{1382,0x2992b6e1a7077},{1382,0x2b2b0e3ea5b58},{1382,0x2b6dcd3b9c654},{1382,0x3135e758f1d0c},{1382,0x31ab1ac436c94},{1382,0x3b05e83c1ef45},{1382,0x3e12b08c6b2ef},{1382,0x5089ca72f3ab5},{1382,0x6571433006a65},{1382,0x66fee05649a7a},{1382,0x6f687a21b08d6},{1382,0x81df94083909c},{1382,0x8cbbba395ea77},{1382,0x8f8a76f5bc746},{1382,0x97b0a76521e0d},{1382,0x9d1b5ad7f6ab0},{1382,0x9e6fb42f767be},{1382,0x9f74b92470e76},{1382,0xa407e0502945c},{1382,0xbac434c78ff89},{1382,0xbc73c6818a948},{1382,0xc6d4d14db718b},{1382,0xd2f0b0397ba49},{1382,0xd86c1ef61b994},{1382,0xd9782f18db287},{1382,0xdf9dd942a0913},{1382,0xeda03e83beebc},{1382,0xf69806df33eab},{1382,0xfff5dd61058f4},
{1383,0x684ec3219cb9},{1383,0x12cc6b1579e73},{1383,0x1b68e91bbbf8b},{1383,0x2992b6e1a7077},{1383,0x34246dc231804},{1383,0x3b05e83c1ef45},{1383,0x4702e59627a8d},{1383,0x5089ca72f3ab5},{1383,0x50d257fe7fe3a},{1383,0x538e07a2a62ba},{1383,0x6571433006a65},{1383,0x66fee05649a7a},{1383,0x6f86e446241d0},{1383,0x72f7a1831ad71},{1383,0x79822dd926c40},{1383,0x7d83612f2e44f},{1383,0x7e90f54a94439},{1383,0x81df94083909c},{1383,0xa407e0502945c},{1383,0xad25d97f2a518},{1383,0xb096e4a09cfcf},{1383,0xb403dcc834e11},{1383,0xced0db3809b24},{1383,0xd888dc5a2e6e7},{1383,0xd9782f18db287},{1383,0xdf9dd942a0913},{1383,0xeda03e83beebc},{1383,0xf09fa02d04507},{1383,0xf39bd3861c1d9},{1383,0xf69806df33eab},{1383,0xffd669889968f},
{1384,0x684ec3219cb9},{1384,0x7fad9b7bd954},{1384,0x12cc6b1579e73},{1384,0x21d63e9facd52},{1384,0x3b05e83c1ef45},{1384,0x4702e59627a8d},{1384,0x5089ca72f3ab5},{1384,0x538e07a2a62ba},{1384,0x6402acfd31da8},{1384,0x6571433006a65},{1384,0x665d7fc9a066f},{1384,0x66fee05649a7a},{1384,0x6958f6035c76b},{1384,0x6f86e446241d0},{1384,0x773e05817f25a},{1384,0x7d83612f2e44f},{1384,0x81df94083909c},{1384,0x8b20ce57db123},{1384,0xa0972313328bb},{1384,0xa407e0502945c},{1384,0xad25d97f2a518},{1384,0xae909d38e76b1},{1384,0xc000bcf3a7372},{1384,0xc2c8fc3aa2f56},{1384,0xd888dc5a2e6e7},{1384,0xd9782f18db287},{1384,0xdf9dd942a0913},{1384,0xe4aed2c8a51bf},{1384,0xe7ab9b681335e},{1384,0xeca74c50ba48b},{1384,0xf39bd3861c1d9},
{1385,0x684ec3219cb9},{1385,0x7fad9b7bd954},{1385,0x1752736a23846},{1385,0x2d0979ea5ffba},{1385,0x3b05e83c1ef45},{1385,0x538e07a2a62ba},{1385,0x62432362aaf6e},{1385,0x6402acfd31da8},{1385,0x6571433006a65},{1385,0x6580c6a9bdc11},{1385,0x66fee05649a7a},{1385,0x7d83612f2e44f},{1385,0x81df94083909c},{1385,0x84409aa7ed276},{1385,0x84d8e1d137aae},{1385,0xa440807268af7},{1385,0xb7f76adce6a37},{1385,0xc64911e0fc083},{1385,0xe30fbdb4cab89},{1385,0xe6854aabed672},{1385,0xeca74c50ba48b},{1385,0xee0f41b1943d2},{1385,0xf39bd3861c1d9},{1385,0xf418fb8017f7b},
{1386,0x2e24b16df65a},{1386,0x59818a1fc8ba},{1386,0x684ec3219cb9},{1386,0x7fad9b7bd954},{1386,0x108269fd210cb},{1386,0x16789e59db4a5},{1386,0x1cf5268f02ac4},{1386,0x27592411ba090},{1386,0x2d0979ea5ffba},{1386,0x4b53c2516484d},{1386,0x57c122696946a},{1386,0x66fee05649a7a},{1386,0x72f7a1831ad71},{1386,0x76851b6f03996},{1386,0x7a12955aec5bb},{1386,0x7d83612f2e44f},{1386,0x812d8932bde05},{1386,0x84d8e1d137aae},{1386,0x98c39efbb1930},{1386,0x9d09a92749c96},{1386,0xb5688c291d498},{1386,0xb7f76adce6a37},{1386,0xc2637b2004f07},{1386,0xc64911e0fc083},{1386,0xd5c1d20b2e1a5},{1386,0xd7299798dac6e},{1386,0xe30fbdb4cab89},{1386,0xe7db8502c280a},{1386,0xf39bd3861c1d9},{1386,0xf418fb8017f7b},{1386,0xf63edaeca9d8d},{1386,0xf82477477d244},
{1387,0x59818a1fc8ba},{1387,0x684ec3219cb9},{1387,0x7fad9b7bd954},{1387,0x16789e59db4a5},{1387,0x1cf5268f02ac4},{1387,0x27592411ba090},{1387,0x33411f2eaedd0},{1387,0x33eff197413b7},{1387,0x3839a9c998c7b},{1387,0x413ddd40ddd9b},{1387,0x4609a48ed5a1c},{1387,0x4b53c2516484d},{1387,0x4bc7bd338b701},{1387,0x51c74aacb1ca8},{1387,0x5a90599b73f36},{1387,0x5f885ff78e26d},{1387,0x72f7a1831ad71},{1387,0x76851b6f03996},{1387,0x7a12955aec5bb},{1387,0x7d83612f2e44f},{1387,0x84d8e1d137aae},{1387,0x8eacaaeb0b746},{1387,0x98c39efbb1930},{1387,0x9d09a92749c96},{1387,0xb7f76adce6a37},{1387,0xc64911e0fc083},{1387,0xd5c1d20b2e1a5},{1387,0xdce4397af9d63},{1387,0xde43f666d2f08},{1387,0xe30fbdb4cab89},{1387,0xe7db8502c280a},{1387,0xe84c07a1e1c85},{1387,0xf39bd3861c1d9},{1387,0xf63edaeca9d8d},{1387,0xf82477477d244},{1387,0xfb1253e4d79e6},
{1388,0x59818a1fc8ba},{1388,0x684ec3219cb9},{1388,0xfcbe5ea144f0},{1388,0x16789e59db4a5},{1388,0x1aba8129d249f},{1388,0x1cf5268f02ac4},{1388,0x246ba6edbe2d1},{1388,0x27592411ba090},{1388,0x3292b73cc52e4},{1388,0x33411f2eaedd0},{1388,0x33eff197413b7},{1388,0x3839a9c998c7b},{1388,0x41fa0372a629f},{1388,0x4ad56bdccd69d},{1388,0x4b53c2516484d},{1388,0x4e629b43c97ea},{1388,0x51c74aacb1ca8},{1388,0x5a90599b73f36},{1388,0x5f885ff78e26d},{1388,0x74be5e790f383},{1388,0x76851b6f03996},{1388,0x784bd864f7fa8},{1388,0x7bbbc0a913c27},{1388,0x84d8e1d137aae},{1388,0x955b974221294},{1388,0x98c39efbb1930},{1388,0xaf68918872b0d},{1388,0xb7f76adce6a37},{1388,0xc64911e0fc083},{1388,0xd01e5d406d7be},{1388,0xd5c1d20b2e1a5},{1388,0xdce4397af9d63},{1388,0xde43f666d2f08},{1388,0xdf46a549abb9d},{1388,0xf39bd3861c1d9},{1388,0xf82477477d244},{1388,0xfaaaf0030aafc},{1388,0xfb1253e4d79e6},{1388,0xfb5053768d930},
{1389,0x59818a1fc8ba},{1389,0x16789e59db4a5},{1389,0x18e3d49342b30},{1389,0x1aaa918937143},{1389,0x1aba8129d249f},{1389,0x1adfa2d11f993},{1389,0x1b2f48cade860},{1389,0x1cf5268f02ac4},{1389,0x2209025f8955c},{1389,0x27592411ba090},{1389,0x3292b73cc52e4},{1389,0x33411f2eaedd0},{1389,0x3839a9c998c7b},{1389,0x41fa0372a629f},{1389,0x4ad56bdccd69d},{1389,0x4b53c2516484d},{1389,0x51c74aacb1ca8},{1389,0x5f885ff78e26d},{1389,0x65ab2b1c3b60a},{1389,0x6c183904d4f57},{1389,0x6da36aa13db39},{1389,0x76851b6f03996},{1389,0x784bd864f7fa8},{1389,0x7bbbc0a913c27},{1389,0x7f66cc3cc97f2},{1389,0x84d8e1d137aae},{1389,0xa6391d57de3d2},{1389,0xaf68918872b0d},{1389,0xb7f76adce6a37},{1389,0xbd01293ecb64e},{1389,0xc4fe7f30cc83b},{1389,0xc64911e0fc083},{1389,0xc6c00744cf26c},{1389,0xd01e5d406d7be},{1389,0xd426624ac47fb},{1389,0xd5c1d20b2e1a5},{1389,0xd5ed1f40b8e0e},{1389,0xf39bd3861c1d9},{1389,0xfaaaf0030aafc},
{1390,0x20849287b4b3},{1390,0xe7e63e1b0856},{1390,0xf2524e5e26a3},{1390,0x18e3d49342b30},{1390,0x1aba8129d249f},{1390,0x1adfa2d11f993},{1390,0x1b2f48cade860},{1390,0x27592411ba090},{1390,0x2bc02888fe57e},{1390,0x3292b73cc52e4},{1390,0x3e4cadfd7ea49},{1390,0x41fa0372a629f},{1390,0x4897d67c1d56c},{1390,0x4b53c2516484d},{1390,0x4c1ef12c80477},{1390,0x50c131b51a286},{1390,0x5be00905b1e80},{1390,0x70945a590dd0b},{1390,0x76851b6f03996},{1390,0x7bbbc0a913c27},{1390,0x882920c118844},{1390,0xa6391d57de3d2},{1390,0xa9cbc59b83a3d},{1390,0xae0dcf4378280},{1390,0xb4b0f10f6ce1d},{1390,0xb7f76adce6a37},{1390,0xc4fe7f30cc83b},{1390,0xc64911e0fc083},{1390,0xc6c00744cf26c},{1390,0xd01e5d406d7be},{1390,0xd426624ac47fb},{1390,0xf39bd3861c1d9},{1390,0xfef486ba9df7c},
{1391,0xe61652926ca9},{1391,0xe7e63e1b0856},{1391,0x18e3d49342b30},{1391,0x1adfa2d11f993},{1391,0x27592411ba090},{1391,0x30bdd587b004e},{1391,0x41fa0372a629f},{1391,0x4897d67c1d56c},{1391,0x4b53c2516484d},{1391,0x4c1ef12c80477},{1391,0x5be00905b1e80},{1391,0x76851b6f03996},{1391,0x76cecff5d2bc6},{1391,0x7bbbc0a913c27},{1391,0x7f37650bf679d},{1391,0x882920c118844},{1391,0x9bb3bf3ef154a},{1391,0xa41752cbb7b62},{1391,0xa6391d57de3d2},{1391,0xae0dcf4378280},{1391,0xb4b0f10f6ce1d},{1391,0xba66eb4423a76},{1391,0xc6c00744cf26c},{1391,0xc7b7c02fc92bd},{1391,0xd01e5d406d7be},{1391,0xd426624ac47fb},
{1392,0x834d728d10ae},{1392,0xe61652926ca9},{1392,0x11c028f6a9fd7},{1392,0x18e3d49342b30},{1392,0x1adfa2d11f993},{1392,0x27592411ba090},{1392,0x30bdd587b004e},{1392,0x3284927da4661},{1392,0x3caad601e6add},{1392,0x41fa0372a629f},{1392,0x48ff0c6058a13},{1392,0x4b53c2516484d},{1392,0x4c25506806191},{1392,0x4e9587665dfce},{1392,0x67ebbdaa5b070},{1392,0x76851b6f03996},{1392,0x7b557a410985e},{1392,0x7bbbc0a913c27},{1392,0x882920c118844},{1392,0x8b6ae5d611fc5},{1392,0x9025d959654c6},{1392,0x94819553bd0ed},{1392,0x96e16799e0188},{1392,0x9a4c1cdda7943},{1392,0x9bb3bf3ef154a},{1392,0xa6391d57de3d2},{1392,0xae0dcf4378280},{1392,0xb4b0f10f6ce1d},{1392,0xb4f8b64fa125d},{1392,0xc093794479671},{1392,0xc7b7c02fc92bd},{1392,0xd01e5d406d7be},{1392,0xd23f4d9454deb},{1392,0xd426624ac47fb},{1392,0xedc720352632c},{1392,0xf1236da4f323f},{1392,0xf4ccc94c9aa2e},
{1393,0x824c776a6e5c},{1393,0xe61652926ca9},{1393,0x18e3d49342b30},{1393,0x1adfa2d11f993},{1393,0x2cafdf2cae7b3},{1393,0x41fa0372a629f},{1393,0x43f79ee500bab},{1393,0x4b53c2516484d},{1393,0x4c25506806191},{1393,0x5484d6f653ffb},{1393,0x570b37f27c485},{1393,0x677a6f36d018d},{1393,0x67ebbdaa5b070},{1393,0x76851b6f03996},{1393,0x78cc436239c5b},{1393,0x8601883b095e9},{1393,0x885b664810e68},{1393,0x89dc7d2fd9c45},{1393,0x8a1ca8837d845},{1393,0x9025d959654c6},{1393,0x99e7fc9a4f10a},{1393,0xa49e938b4cd79},{1393,0xa9cbc59b83a3d},{1393,0xae0dcf4378280},{1393,0xb2261dd214e61},{1393,0xb4b0f10f6ce1d},{1393,0xb4f8b64fa125d},{1393,0xc093794479671},{1393,0xc8404445c5fbc},{1393,0xccec954524e67},{1393,0xd426624ac47fb},{1393,0xec006e2276ffc},{1393,0xf1236da4f323f},{1393,0xf4ccc94c9aa2e},
{1394,0xa1f5b8132466},{1394,0xb77132fb0852},{1394,0xe61652926ca9},{1394,0x354a2c82becaf},{1394,0x36b455c4cb596},{1394,0x3772760e1a771},{1394,0x4038c137398c2},{1394,0x41fa0372a629f},{1394,0x4c25506806191},{1394,0x660b55fb11d72},{1394,0x67ebbdaa5b070},{1394,0x6da6fd3725d88},{1394,0x6e2594e0b5b2c},{1394,0x74924ce8132f5},{1394,0x782357dfed266},{1394,0x885b664810e68},{1394,0x89acc91a18846},{1394,0x8f2f0941cb699},{1394,0x9025d959654c6},{1394,0x94559ca08c3fb},{1394,0x99e7fc9a4f10a},{1394,0xa9cbc59b83a3d},{1394,0xb2261dd214e61},{1394,0xb4f8b64fa125d},{1394,0xc8404445c5fbc},{1394,0xd07e0b58e840e},{1394,0xd426624ac47fb},{1394,0xde8686c9304f5},{1394,0xe9cb304ebf765},{1394,0xf1ce14bf55254},{1394,0xf626a6c374196},
{1395,0xdc674f8146d},{1395,0xe61652926ca9},{1395,0x3202683e2c66e},{1395,0x354a2c82becaf},{1395,0x36b455c4cb596},{1395,0x3772760e1a771},{1395,0x3b4df9703926f},{1395,0x67ebbdaa5b070},{1395,0x746d39cb701fb},{1395,0x7602f12f8b9a3},{1395,0x89acc91a18846},{1395,0x8c85c338d296f},{1395,0x8dda663d4f004},{1395,0x8f2f0941cb699},{1395,0x9025d959654c6},{1395,0xac6cb8d07c93b},{1395,0xb2261dd214e61},{1395,0xb4f8b64fa125d},{1395,0xba037a20eacd8},{1395,0xbb927aeffe414},{1395,0xbf56033268b93},{1395,0xc8404445c5fbc},{1395,0xcf61f34f304e1},{1395,0xd07e0b58e840e},{1395,0xd20e80a731061},{1395,0xd426624ac47fb},{1395,0xde8686c9304f5},{1395,0xed1ffe4b4e0e3},{1395,0xf1a6ec3585e34},{1395,0xf48f5de153ee1},{1395,0xfc5d832683aa3},{1395,0xfe0403124a00d},
{1396,0xdc674f8146d},{1396,0xa1f5b8132466},{1396,0xb92fe407f0dc},{1396,0xe61652926ca9},{1396,0x100223c57ccd4},{1396,0x1211626f944f3},{1396,0x1c276eaecddef},{1396,0x30ea8551d55c9},{1396,0x349c742137dfb},{1396,0x3b4df9703926f},{1396,0x569cb899e7796},{1396,0x7dc0b1ba3a6c6},{1396,0x89acc91a18846},{1396,0x8dda663d4f004},{1396,0x8f2f0941cb699},{1396,0x91bf1c4d2ca42},{1396,0xa6a8cb9e9572b},{1396,0xb2261dd214e61},{1396,0xb4f8b64fa125d},{1396,0xbb927aeffe414},{1396,0xbf56033268b93},{1396,0xc22d54cf68b9f},{1396,0xcc7300a7dcfff},{1396,0xcf61f34f304e1},{1396,0xd07e0b58e840e},{1396,0xd426624ac47fb},{1396,0xdc39be538a556},{1396,0xed1ffe4b4e0e3},{1396,0xf48f5de153ee1},{1396,0xfc5d832683aa3},{1396,0xfe0403124a00d},
{1397,0xdc674f8146d},{1397,0x34c0392c4e25},{1397,0x6d7c18521296},{1397,0xa1f5b8132466},{1397,0xe81eaff2792e},{1397,0x164995317cd4b},{1397,0x166e3f6ab1148},{1397,0x1c276eaecddef},{1397,0x275d561b308f8},{1397,0x3b4df9703926f},{1397,0x3e185f078969e},{1397,0x569cb899e7796},{1397,0x76a3fd994a679},{1397,0x7e9cf53b02788},{1397,0x84616b35fe2fb},{1397,0x89acc91a18846},{1397,0x8cea401cb4bb2},{1397,0x8dda663d4f004},{1397,0x8f2f0941cb699},{1397,0x91bf1c4d2ca42},{1397,0xa33082a01f0eb},{1397,0xa6a8cb9e9572b},{1397,0xa7aeb5a03385c},{1397,0xaa9542313d5b7},{1397,0xb2261dd214e61},{1397,0xb4f8b64fa125d},{1397,0xc22d54cf68b9f},{1397,0xc8c7a40f4c840},{1397,0xc9aefa18e31f7},{1397,0xd07e0b58e840e},{1397,0xdc39be538a556},{1397,0xdd0649c8397a5},{1397,0xebaf3e9192b91},{1397,0xed1ffe4b4e0e3},{1397,0xf6ffcece870a7},{1397,0xfc3188ddb8efa},{1397,0xfe0403124a00d},
{1398,0xdc674f8146d},{1398,0x6d7c18521296},{1398,0x164995317cd4b},{1398,0x166e3f6ab1148},{1398,0x275d561b308f8},{1398,0x28d805fdd0c30},{1398,0x2eba3d0f84516},{1398,0x319ecfea2e4f0},{1398,0x3e185f078969e},{1398,0x4517f9bdc0c32},{1398,0x4a17789275c07},{1398,0x4ad84a76805cb},{1398,0x63ae2caed4527},{1398,0x6f7ffb2c07e9e},{1398,0x72f19dd0bb413},{1398,0x76a3fd994a679},{1398,0x84616b35fe2fb},{1398,0x89acc91a18846},{1398,0x8cea401cb4bb2},{1398,0x8dda663d4f004},{1398,0x8f2f0941cb699},{1398,0x940a231cfe066},{1398,0x9fff034278156},{1398,0xa6a8cb9e9572b},{1398,0xb4f8b64fa125d},{1398,0xb976c52389624},{1398,0xc2d887a941f4d},{1398,0xc8c7a40f4c840},{1398,0xd07e0b58e840e},{1398,0xd541332ca79ee},{1398,0xd5fc428f14182},{1398,0xda08995c780e1},{1398,0xdbb1a6c3bd110},{1398,0xebaf3e9192b91},{1398,0xfc3188ddb8efa},{1398,0xfe0403124a00d},
{1399,0xdc674f8146d},{1399,0x6d7c18521296},{1399,0x164995317cd4b},{1399,0x166e3f6ab1148},{1399,0x184e29fe41dca},{1399,0x1dcfe22a82f0d},{1399,0x215557243fad0},{1399,0x28d805fdd0c30},{1399,0x2b334482e5a34},{1399,0x2eba3d0f84516},{1399,0x3a6162ccc2fc3},{1399,0x3c053ca96bb39},{1399,0x3e185f078969e},{1399,0x3ed36e69f5e32},{1399,0x4a17789275c07},{1399,0x522452d4000a6},{1399,0x5e7930680923b},{1399,0x61da777c619dd},{1399,0x63ae2caed4527},{1399,0x63e29410d0f72},{1399,0x659a22f59b8e9},{1399,0x6f7ffb2c07e9e},{1399,0x72f19dd0bb413},{1399,0x84616b35fe2fb},{1399,0x8a43a247b1be1},{1399,0x8cea401cb4bb2},{1399,0x8f2f0941cb699},{1399,0x9fff034278156},{1399,0xa6a8cb9e9572b},{1399,0xac43e6c06157b},{1399,0xb0d917e08f29a},{1399,0xb4f8b64fa125d},{1399,0xb821f0b8442de},{1399,0xb976c52389624},{1399,0xc2d887a941f4d},{1399,0xc6175b97467a1},{1399,0xd5fc428f14182},{1399,0xe238e691bf75b},{1399,0xe258d5da2b1f9},
{1400,0x5690f799e160},{1400,0x6d7c18521296},{1400,0x1270565d3bd89},{1400,0x164995317cd4b},{1400,0x166e3f6ab1148},{1400,0x184e29fe41dca},{1400,0x215557243fad0},{1400,0x28557bff1fe87},{1400,0x2b334482e5a34},{1400,0x2d6d371dfe94f},{1400,0x3a6162ccc2fc3},{1400,0x3c053ca96bb39},{1400,0x3e185f078969e},{1400,0x488db1e66973b},{1400,0x50fd798c2d308},{1400,0x571fcba07a341},{1400,0x5e7930680923b},{1400,0x63ae2caed4527},{1400,0x659a22f59b8e9},{1400,0x6a8df65f190d6},{1400,0x72f19dd0bb413},{1400,0x80da86e8dbc7c},{1400,0x8290fe034f4b3},{1400,0x87bf7f373fffa},{1400,0x8a43a247b1be1},{1400,0x8f2f0941cb699},{1400,0x9fff034278156},{1400,0xa61609eaa11a2},{1400,0xa6a8cb9e9572b},{1400,0xac43e6c06157b},{1400,0xb0d917e08f29a},{1400,0xb8c3ef8dfb449},{1400,0xc2d887a941f4d},{1400,0xd03017d07fcd7},{1400,0xe238e691bf75b},{1400,0xe258d5da2b1f9},{1400,0xedf9d721a9a21},{1400,0xf3578fbfb2205},
{1401,0x6d7c18521296},{1401,0x164995317cd4b},{1401,0x184e29fe41dca},{1401,0x215557243fad0},{1401,0x21c0b74093bff},{1401,0x28557bff1fe87},{1401,0x2b334482e5a34},{1401,0x2d6d371dfe94f},{1401,0x315b6f65f1725},{1401,0x34a5d1c537869},{1401,0x38b2dbf21d1b6},{1401,0x3a6162ccc2fc3},{1401,0x3c053ca96bb39},{1401,0x3e185f078969e},{1401,0x488db1e66973b},{1401,0x4c6d499a660ff},{1401,0x50cfafcf83a11},{1401,0x571fcba07a341},{1401,0x63ae2caed4527},{1401,0x659a22f59b8e9},{1401,0x6fff5c88a7855},{1401,0x7a64961bb37c1},{1401,0x7a68cc536565b},{1401,0x8a43a247b1be1},{1401,0x8f2f0941cb699},{1401,0x93df413cdc0a8},{1401,0x99ef223faa0ff},{1401,0x9cac59191cd4e},{1401,0x9fff034278156},{1401,0xa3f97c67e3571},{1401,0xa61609eaa11a2},{1401,0xa6a8cb9e9572b},{1401,0xbc1ebcb4adb01},{1401,0xcbf992a8fa086},{1401,0xd03017d07fcd7},{1401,0xe238e691bf75b},{1401,0xfae1537ce0f54},{1401,0xfdd4ad15f5fa6},
{1402,0x6d7c18521296},{1402,0x124cbc5593b63},{1402,0x1f4f88984e5e9},{1402,0x215557243fad0},{1402,0x28557bff1fe87},{1402,0x2b334482e5a34},{1402,0x2d6d371dfe94f},{1402,0x315b6f65f1725},{1402,0x34a5d1c537869},{1402,0x38b2dbf21d1b6},{1402,0x3a6162ccc2fc3},{1402,0x4367563394861},{1402,0x475db2a4121a5},{1402,0x488db1e66973b},{1402,0x4c6d499a660ff},{1402,0x50cfafcf83a11},{1402,0x5b34e9628f97d},{1402,0x63ae2caed4527},{1402,0x659a22f59b8e9},{1402,0x6accbfbf2189f},{1402,0x6d660e23e487a},{1402,0x6fff5c88a7855},{1402,0x7a64961bb37c1},{1402,0x7a68cc536565b},{1402,0x7ecea7773f313},{1402,0x84c9cfaebf72d},{1402,0x8a43a247b1be1},{1402,0x99ef223faa0ff},{1402,0x9fff034278156},{1402,0xa6a8cb9e9572b},{1402,0xaa99039e09df1},{1402,0xbc1ebcb4adb01},{1402,0xcbf992a8fa086},{1402,0xd50c49eb2ba91},{1402,0xe238e691bf75b},
{1403,0x6d7c18521296},{1403,0x124cbc5593b63},{1403,0x1f4f88984e5e9},{1403,0x215557243fad0},{1403,0x28557bff1fe87},{1403,0x2b334482e5a34},{1403,0x2cd875b288ad6},{1403,0x2d6d371dfe94f},{1403,0x315b6f65f1725},{1403,0x35de69195a374},{1403,0x3a6162ccc2fc3},{1403,0x3afd748234045},{1403,0x488db1e66973b},{1403,0x4c6d499a660ff},{1403,0x561def4a9ee31},{1403,0x5b1051df943a8},{1403,0x6067862c15933},{1403,0x63ae2caed4527},{1403,0x659a22f59b8e9},{1403,0x6accbfbf2189f},{1403,0x6d660e23e487a},{1403,0x6dfa3981fda8b},{1403,0x6fff5c88a7855},{1403,0x7531f9522d80b},{1403,0x798b0a9c7dc15},{1403,0x7a64961bb37c1},{1403,0x8a43a247b1be1},{1403,0x94cb4c9ae8c80},{1403,0x98bbd2da02ce7},{1403,0x99ef223faa0ff},{1403,0x9fd0fef9de8df},{1403,0xaa99039e09df1},{1403,0xc53173f6df50b},{1403,0xc7e2d0b615df6},{1403,0xe238e691bf75b},{1403,0xe737cdba16157},
{1404,0x373b22c13cd8},{1404,0x3ce2c9fcbeb1},{1404,0x8c0a8174285e},{1404,0xd40b9e21dce6},{1404,0x124cbc5593b63},{1404,0x16b347246fb1b},{1404,0x1f4f88984e5e9},{1404,0x240f1d12a3532},{1404,0x2cd875b288ad6},{1404,0x315b6f65f1725},{1404,0x35de69195a374},{1404,0x3afd748234045},{1404,0x41c593344ebc0},{1404,0x4529a28d5c17e},{1404,0x488db1e66973b},{1404,0x48ba959b43ed6},{1404,0x4c6d499a660ff},{1404,0x4f55d098842b6},{1404,0x561def4a9ee31},{1404,0x5b1051df943a8},{1404,0x62fc2a1b71e8a},{1404,0x6833715a5e8c4},{1404,0x6accbfbf2189f},{1404,0x6d660e23e487a},{1404,0x6fff5c88a7855},{1404,0x7298aaed6a830},{1404,0x798b0a9c7dc15},{1404,0x86df92eea4623},{1404,0x94cb4c9ae8c80},{1404,0x99ef223faa0ff},{1404,0xb6bcff3525bc2},{1404,0xc7e2d0b615df6},{1404,0xc895834fecac9},{1404,0xddc05534b53cd},{1404,0xe238e691bf75b},
{1405,0x3ce2c9fcbeb1},{1405,0x8c0a8174285e},{1405,0xd40b9e21dce6},{1405,0x124cbc5593b63},{1405,0x16b347246fb1b},{1405,0x1f4f88984e5e9},{1405,0x2025d466c1950},{1405,0x240f1d12a3532},{1405,0x2600b2093ea0a},{1405,0x315b6f65f1725},{1405,0x343555d0194ca},{1405,0x35de69195a374},{1405,0x3e6183db41603},{1405,0x41c593344ebc0},{1405,0x4529a28d5c17e},{1405,0x488db1e66973b},{1405,0x48ba959b43ed6},{1405,0x4bf1c13f76cf9},{1405,0x500e0e47d0dda},{1405,0x561def4a9ee31},{1405,0x5b1051df943a8},{1405,0x5c2dd04d6ce88},{1405,0x6accbfbf2189f},{1405,0x6d660e23e487a},{1405,0x6fff5c88a7855},{1405,0x70187d5a2bde0},{1405,0x77edcf3d3e814},{1405,0x780688c524798},{1405,0x798b0a9c7dc15},{1405,0x82fd97decfa4a},{1405,0x86df92eea4623},{1405,0x921186ac8521e},{1405,0x99ef223faa0ff},{1405,0xb6bcff3525bc2},{1405,0xc895834fecac9},{1405,0xc8e868ac0ffa4},{1405,0xe238e691bf75b},{1405,0xea556d21b8fcc},
{1406,0x3ce2c9fcbeb1},{1406,0x3e29f5c2b18b},{1406,0x8c0a8174285e},{1406,0xd40b9e21dce6},{1406,0x16b347246fb1b},{1406,0x2025d466c1950},{1406,0x23410912d6817},{1406,0x315b6f65f1725},{1406,0x330aeeeb655ba},{1406,0x343555d0194ca},{1406,0x35de69195a374},{1406,0x3664d956f3a04},{1406,0x37ce8a3c98c7e},{1406,0x41c593344ebc0},{1406,0x4529a28d5c17e},{1406,0x488db1e66973b},{1406,0x48ba959b43ed6},{1406,0x561def4a9ee31},{1406,0x5b1051df943a8},{1406,0x6247b136fecc3},{1406,0x67123c07e1ae5},{1406,0x697f108e695de},{1406,0x6d660e23e487a},{1406,0x746d5458a4fe4},{1406,0x798b0a9c7dc15},{1406,0x7ae06f2f4c53d},{1406,0x7fbbca6834d4c},{1406,0x85d3ef0a40a51},{1406,0x91847382983cc},{1406,0xbfe275453e706},{1406,0xc8e868ac0ffa4},{1406,0xe238e691bf75b},{1406,0xe7be73d40a23d},{1406,0xeb22832d177fa},{1406,0xffa8eeaf3ad34},
{1407,0x3ce2c9fcbeb1},{1407,0x8c0a8174285e},{1407,0xd40b9e21dce6},{1407,0x11b960ce53060},{1407,0x16b347246fb1b},{1407,0x19f9f64d14149},{1407,0x2025d466c1950},{1407,0x330aeeeb655ba},{1407,0x343555d0194ca},{1407,0x35de69195a374},{1407,0x4529a28d5c17e},{1407,0x48ba959b43ed6},{1407,0x51e573bd6c13f},{1407,0x561def4a9ee31},{1407,0x5b1051df943a8},{1407,0x6247b136fecc3},{1407,0x643b3001bc611},{1407,0x6d660e23e487a},{1407,0x798b0a9c7dc15},{1407,0x7ae06f2f4c53d},{1407,0x91847382983cc},{1407,0x96740b30b31dd},{1407,0xa33a0b49bdeb6},{1407,0xa95394c43297b},{1407,0xc912bb7976094},{1407,0xd6ca2716c7589},{1407,0xd91c1eebe76e1},{1407,0xe7be73d40a23d},{1407,0xeb22832d177fa},{1407,0xedaae890bd6b0},{1407,0xf8b2c0914cef0},{1407,0xf9990dac6ccdd},{1407,0xffa8eeaf3ad34},
{1408,0x3ce2c9fcbeb1},{1408,0x4606019b7edb},{1408,0x815f5cddb3ca},{1408,0x11b960ce53060},{1408,0x19f9f64d14149},{1408,0x1e3675e83742d},{1408,0x245ef347b07bd},{1408,0x330aeeeb655ba},{1408,0x3f8fb7791bc6d},{1408,0x4529a28d5c17e},{1408,0x49c28074c8eaf},{1408,0x51e573bd6c13f},{1408,0x561def4a9ee31},{1408,0x5b1051df943a8},{1408,0x6247b136fecc3},{1408,0x643b3001bc611},{1408,0x65579b1ebb420},{1408,0x6d660e23e487a},{1408,0x6f80de8b8e48c},{1408,0x798b0a9c7dc15},{1408,0x7ae06f2f4c53d},{1408,0x7f252e94a912f},{1408,0x916f4fb0582c8},{1408,0x91847382983cc},{1408,0x96740b30b31dd},{1408,0x9b3c64cead487},{1408,0xa65042f5c6083},{1408,0xa7db7e7b85d87},{1408,0xa95394c43297b},{1408,0xc0cb472ee54ec},{1408,0xc6796d14b30b9},{1408,0xc912bb7976094},{1408,0xcbac09de3906f},{1408,0xcfa991a9958ac},{1408,0xd6ca2716c7589},{1408,0xd91c1eebe76e1},{1408,0xdb49a89e66b2a},{1408,0xe28eac2e39516},{1408,0xe7be73d40a23d},{1408,0xedaae890bd6b0},{1408,0xf9990dac6ccdd},
{1409,0x3ce2c9fcbeb1},{1409,0x4606019b7edb},{1409,0x15c7d3648aa85},{1409,0x2d3f27b22b686},{1409,0x31b00c3ac9ad5},{1409,0x330aeeeb655ba},{1409,0x3f8fb7791bc6d},{1409,0x4529a28d5c17e},{1409,0x4d17fbe3cd593},{1409,0x561def4a9ee31},{1409,0x5b1051df943a8},{1409,0x61a6c588a3562},{1409,0x6247b136fecc3},{1409,0x6d660e23e487a},{1409,0x798b0a9c7dc15},{1409,0x7ae06f2f4c53d},{1409,0x7efcb6e3125dc},{1409,0x82fa74de20b35},{1409,0x916f4fb0582c8},{1409,0x91847382983cc},{1409,0x96740b30b31dd},{1409,0xa7db7e7b85d87},{1409,0xa95394c43297b},{1409,0xb1aef9ee9b1e1},{1409,0xbead81e66a128},{1409,0xc0cb472ee54ec},{1409,0xc137d9d80d02e},{1409,0xc6796d14b30b9},{1409,0xc912bb7976094},{1409,0xcbac09de3906f},{1409,0xd444dd8177b94},{1409,0xd4c3e748491cc},{1409,0xd6ca2716c7589},{1409,0xd8aa91d607fb6},{1409,0xd91c1eebe76e1},{1409,0xdb49a89e66b2a},{1409,0xe7be73d40a23d},{1409,0xedaae890bd6b0},
{1410,0x3ce2c9fcbeb1},{1410,0x571992bf430b},{1410,0x1efa2f739ab9f},{1410,0x2d3f27b22b686},{1410,0x330aeeeb655ba},{1410,0x35f2e15794c5b},{1410,0x3f8fb7791bc6d},{1410,0x4529a28d5c17e},{1410,0x4ced4f517386e},{1410,0x561def4a9ee31},{1410,0x5b1051df943a8},{1410,0x61a6c588a3562},{1410,0x6247b136fecc3},{1410,0x6d660e23e487a},{1410,0x7648fd3da9007},{1410,0x798b0a9c7dc15},{1410,0x7db4da0f5f4c5},{1410,0x7efcb6e3125dc},{1410,0x916f4fb0582c8},{1410,0x91847382983cc},{1410,0x961219000356a},{1410,0x96740b30b31dd},{1410,0x97ea1c93eeaba},{1410,0xa95394c43297b},{1410,0xb0af0a9334445},{1410,0xb69f1923bd3b3},{1410,0xbead81e66a128},{1410,0xc137d9d80d02e},{1410,0xc912bb7976094},{1410,0xcbac09de3906f},{1410,0xd4c3e748491cc},{1410,0xd6ca2716c7589},{1410,0xd91c1eebe76e1},{1410,0xe748eaccd0ce6},{1410,0xe7be73d40a23d},{1410,0xeacd28e05bda7},{1410,0xedaae890bd6b0},{1410,0xf6f53509d175f},{1410,0xffa629bd74d8b},
{1411,0x571992bf430b},{1411,0x10113ed47d1de},{1411,0x1dd54a1235f5a},{1411,0x1efa2f739ab9f},{1411,0x360915abb4099},{1411,0x3d1edf1099908},{1411,0x4529a28d5c17e},{1411,0x4ced4f517386e},{1411,0x561def4a9ee31},{1411,0x5a60d865a4a3c},{1411,0x5b1051df943a8},{1411,0x61a6c588a3562},{1411,0x6247b136fecc3},{1411,0x6633764423f1c},{1411,0x7648fd3da9007},{1411,0x865e84372e0f2},{1411,0x8e6947b3f0968},{1411,0x8f207b8aca58d},{1411,0x916f4fb0582c8},{1411,0x961219000356a},{1411,0x96740b30b31dd},{1411,0x9d4c1bf11878f},{1411,0xa689922a382c8},{1411,0xa95394c43297b},{1411,0xb0af0a9334445},{1411,0xb69f1923bd3b3},{1411,0xbead81e66a128},{1411,0xc912bb7976094},{1411,0xc9292446e7c95},{1411,0xcbac09de3906f},{1411,0xd4c3e748491cc},{1411,0xd91c1eebe76e1},{1411,0xdfb3b057479c7},{1411,0xe748eaccd0ce6},{1411,0xe7be73d40a23d},{1411,0xedaae890bd6b0},{1411,0xf330cca276555},{1411,0xf6f53509d175f},{1411,0xffa629bd74d8b},
{1412,0x5b24c6b0599a},{1412,0xa6b65cec4bd0},{1412,0x187f0c7d4f513},{1412,0x1b3bfbad72f7f},{1412,0x1efa2f739ab9f},{1412,0x2132d235d8588},{1412,0x2a81a28fa761c},{1412,0x2aa55f782a3bd},{1412,0x2bab8674b0225},{1412,0x360915abb4099},{1412,0x561def4a9ee31},{1412,0x5b1051df943a8},{1412,0x61a6c588a3562},{1412,0x6247b136fecc3},{1412,0x675f605d73983},{1412,0x69c97520a6573},{1412,0x7e53c0ba6b87d},{1412,0x814a3f28502c2},{1412,0x865e84372e0f2},{1412,0x8e6947b3f0968},{1412,0x95b86abef34ac},{1412,0x96740b30b31dd},{1412,0x9d4c1bf11878f},{1412,0x9e7ecead75a53},{1412,0xa689922a382c8},{1412,0xaa5fcd7336b49},{1412,0xbb13ddc3fd5d2},{1412,0xbead81e66a128},{1412,0xce166d715dfb4},{1412,0xd2fb36599d707},{1412,0xd6e8f7dbf035f},{1412,0xd91c1eebe76e1},{1412,0xedaae890bd6b0},{1412,0xf217f3b7f8a4e},{1412,0xf330cca276555},{1412,0xf6f53509d175f},{1412,0xfee0bef1a37d9},
{1413,0x228d14d419c4},{1413,0x4db2a6ee2ae9},{1413,0x5e8283df9721},{1413,0x106a1254dd151},{1413,0x1b3bfbad72f7f},{1413,0x2666b88668d20},{1413,0x2a81a28fa761c},{1413,0x2aa55f782a3bd},{1413,0x2bab8674b0225},{1413,0x2de81ddad23e6},{1413,0x2ed6f7af0a4da},{1413,0x3417ecba7c1f2},{1413,0x360915abb4099},{1413,0x561def4a9ee31},{1413,0x5b1051df943a8},{1413,0x6247b136fecc3},{1413,0x737402c5d5ff7},{1413,0x7e53c0ba6b87d},{1413,0x814a3f28502c2},{1413,0x865e84372e0f2},{1413,0x8c16459032666},{1413,0x8e6947b3f0968},{1413,0x961219000356a},{1413,0x96740b30b31dd},{1413,0x9d4c1bf11878f},{1413,0x9e7ecead75a53},{1413,0xa689922a382c8},{1413,0xb8e2254281ef4},{1413,0xbead81e66a128},{1413,0xcb148f3c97739},{1413,0xce166d715dfb4},{1413,0xcebf639a04d14},{1413,0xd6e8f7dbf035f},{1413,0xe4bf343e6a62a},{1413,0xedaae890bd6b0},{1413,0xf217f3b7f8a4e},{1413,0xf330cca276555},{1413,0xf6f53509d175f},{1413,0xfb969f40042c5},{1413,0xfee0bef1a37d9},
{1414,0x1b3bfbad72f7f},{1414,0x2666b88668d20},{1414,0x26b27a3395393},{1414,0x2acef5c6f470e},{1414,0x2bab8674b0225},{1414,0x2bed3b60ddbc7},{1414,0x2ed6f7af0a4da},{1414,0x32d9b943b6f83},{1414,0x3417ecba7c1f2},{1414,0x360915abb4099},{1414,0x561def4a9ee31},{1414,0x634fd5e002ebd},{1414,0x6bb0c26364bec},{1414,0x728a1d3669724},{1414,0x737402c5d5ff7},{1414,0x7c5132e735430},{1414,0x7e53c0ba6b87d},{1414,0x808ed27425be9},{1414,0x814a3f28502c2},{1414,0x8e6947b3f0968},{1414,0x961219000356a},{1414,0x96740b30b31dd},{1414,0xa689922a382c8},{1414,0xb8e2254281ef4},{1414,0xbea73a3004265},{1414,0xbead81e66a128},{1414,0xc254b284d3d29},{1414,0xce166d715dfb4},{1414,0xcebf639a04d14},{1414,0xd1efeb9ad54cd},{1414,0xd6e8f7dbf035f},{1414,0xe32ec7663e8e9},{1414,0xe4bf343e6a62a},{1414,0xedaae890bd6b0},{1414,0xf20399a0ecbc2},{1414,0xf217f3b7f8a4e},{1414,0xf330cca276555},{1414,0xfa0e5d1daf437},
{1415,0xf95833ccf0d5},{1415,0x1b3bfbad72f7f},{1415,0x2acef5c6f470e},{1415,0x2bab8674b0225},{1415,0x2bed3b60ddbc7},{1415,0x2e44d4d973200},{1415,0x32d9b943b6f83},{1415,0x3417ecba7c1f2},{1415,0x360915abb4099},{1415,0x561def4a9ee31},{1415,0x5b4bf40fece41},{1415,0x5d6600ffbd3d9},{1415,0x63608a217c7ca},{1415,0x6397ee79db409},{1415,0x6788a642709db},{1415,0x6bb0c26364bec},{1415,0x728a1d3669724},{1415,0x7c5132e735430},{1415,0x7e53c0ba6b87d},{1415,0x808ed27425be9},{1415,0x814a3f28502c2},{1415,0x9317f0393a620},{1415,0x989bcf8e69c26},{1415,0x9ca65b586eb8d},{1415,0xa689922a382c8},{1415,0xbea73a3004265},{1415,0xbead81e66a128},{1415,0xc254b284d3d29},{1415,0xce166d715dfb4},{1415,0xd1efeb9ad54cd},{1415,0xd6e8f7dbf035f},{1415,0xdecdfa05ac54f},{1415,0xe4bf343e6a62a},{1415,0xf20399a0ecbc2},{1415,0xf217f3b7f8a4e},{1415,0xfacd360483248},{1415,0xfb8104e45e977},
{1416,0x347adb840895},{1416,0x497eafb1cfdb},{1416,0x4b98ab4ffd62},{1416,0xf95833ccf0d5},{1416,0x21a6b483ad9d0},{1416,0x2bab8674b0225},{1416,0x32d9b943b6f83},{1416,0x3417ecba7c1f2},{1416,0x360915abb4099},{1416,0x52c0199dabf86},{1416,0x561def4a9ee31},{1416,0x5b4bf40fece41},{1416,0x5ecdd7fbc0e2b},{1416,0x6397ee79db409},{1416,0x649caba8fb1ab},{1416,0x6788a642709db},{1416,0x686d01e2c99e8},{1416,0x6cb1a5b6f7926},{1416,0x6ded634209515},{1416,0x7962255186cdf},{1416,0x7c5132e735430},{1416,0x7cb0f77003213},{1416,0x8982048beec15},{1416,0x92f6507f57899},{1416,0x9317f0393a620},{1416,0x9566fd29409d0},{1416,0xaba4a8ba69ea7},{1416,0xb1beb54d4f4c2},{1416,0xb82bad2dac21f},{1416,0xbead81e66a128},{1416,0xc297f1f899837},{1416,0xc6314ea9861f5},{1416,0xce166d715dfb4},{1416,0xd1b65b126a3a9},{1416,0xe4bf343e6a62a},{1416,0xefc6352176c39},{1416,0xf0576da0d04e1},{1416,0xf20399a0ecbc2},{1416,0xf758e8c36a766},{1416,0xf7c80d6a6a8ab},{1416,0xfb8104e45e977},{1416,0xfb969f40042c5},
{1417,0x4b98ab4ffd62},{1417,0xf95833ccf0d5},{1417,0x1f3ce7d1ecdb8},{1417,0x21379e404302c},{1417,0x32d9b943b6f83},{1417,0x3417ecba7c1f2},{1417,0x360915abb4099},{1417,0x3d3e2388029bb},{1417,0x447bd4472aeda},{1417,0x525f001cb0dca},{1417,0x561def4a9ee31},{1417,0x5ecdd7fbc0e2b},{1417,0x6397ee79db409},{1417,0x649caba8fb1ab},{1417,0x6788a642709db},{1417,0x686d01e2c99e8},{1417,0x6ded634209515},{1417,0x7582b338b18d1},{1417,0x92f6507f57899},{1417,0x9317f0393a620},{1417,0x933041a6422bd},{1417,0x9566fd29409d0},{1417,0xa5e24c30be8da},{1417,0xaaa5818215ae1},{1417,0xaf5a9fabf2274},{1417,0xbc23cb5803a6c},{1417,0xbfea915f56a3b},{1417,0xd1b65b126a3a9},{1417,0xe4bf343e6a62a},{1417,0xf0c7b6751c308},{1417,0xf20399a0ecbc2},{1417,0xf758e8c36a766},{1417,0xf7c80d6a6a8ab},{1417,0xfb8104e45e977},{1417,0xfb969f40042c5},
{1418,0xf95833ccf0d5},{1418,0x1d8c76f179a0d},{1418,0x1dc15f4ed664e},{1418,0x1f3ce7d1ecdb8},{1418,0x21379e404302c},{1418,0x2a08abc1fcfd8},{1418,0x32d9b943b6f83},{1418,0x3417ecba7c1f2},{1418,0x3baac6c570f2f},{1418,0x3df78cf8e7531},{1418,0x447bd4472aeda},{1418,0x542e363e3442a},{1418,0x6397ee79db409},{1418,0x649caba8fb1ab},{1418,0x6788a642709db},{1418,0x67c00a4e12d88},{1418,0x6945077582360},{1418,0x7582b338b18d1},{1418,0x7ecde07e3bbf4},{1418,0x9317f0393a620},{1418,0x9566fd29409d0},{1418,0x9ecde900b69bd},{1418,0xaf5a9fabf2274},{1418,0xb184d593679a9},{1418,0xbfea915f56a3b},{1418,0xc1efd3572b494},{1418,0xd0af1ca66f71b},{1418,0xda03e38791f71},{1418,0xdc4249836552d},{1418,0xe4bf343e6a62a},{1418,0xf758e8c36a766},{1418,0xf7c80d6a6a8ab},{1418,0xfb8104e45e977},
{1419,0xf95833ccf0d5},{1419,0x1d8c76f179a0d},{1419,0x1dc15f4ed664e},{1419,0x321f90d631709},{1419,0x32d9b943b6f83},{1419,0x3baac6c570f2f},{1419,0x428a8e99f51f4},{1419,0x4d1ad88202bd1},{1419,0x542e363e3442a},{1419,0x59942e3c0b80f},{1419,0x646c15be4fbaf},{1419,0x649caba8fb1ab},{1419,0x64d874bb72e7e},{1419,0x6788a642709db},{1419,0x67c00a4e12d88},{1419,0x8c86bdeaec1c2},{1419,0x9317f0393a620},{1419,0x9cbc48eea2f54},{1419,0x9ecde900b69bd},{1419,0xaa83e1c832d5a},{1419,0xac47165e03856},{1419,0xb184d593679a9},{1419,0xc004de2930cc7},{1419,0xc1c3d7a3893cf},{1419,0xc1efd3572b494},{1419,0xc7de0f24b576f},{1419,0xd0af1ca66f71b},{1419,0xd682ed3be3190},{1419,0xd9802a28296c6},{1419,0xdc4249836552d},{1419,0xe4bf343e6a62a},{1419,0xfb8104e45e977},
{1420,0xf95833ccf0d5},{1420,0x28c9dcbbc5fea},{1420,0x2dc6f314427b2},{1420,0x32d9b943b6f83},{1420,0x3baac6c570f2f},{1420,0x3d3e2388029bb},{1420,0x428a8e99f51f4},{1420,0x4cd41b8c51072},{1420,0x4d1ad88202bd1},{1420,0x4d52e0aa57922},{1420,0x649caba8fb1ab},{1420,0x6788a642709db},{1420,0x67c00a4e12d88},{1420,0x862cf1b5f0325},{1420,0x8c86bdeaec1c2},{1420,0x9317f0393a620},{1420,0x9aeb3bdfb869e},{1420,0x9ecde900b69bd},{1420,0xa06f7a963036c},{1420,0xa1c3cf210e606},{1420,0xaa83e1c832d5a},{1420,0xac47165e03856},{1420,0xad6ae69f8786d},{1420,0xae1a11945d22d},{1420,0xc1c3d7a3893cf},{1420,0xc1efd3572b494},{1420,0xd0af1ca66f71b},{1420,0xd799edb6de378},{1420,0xd9802a28296c6},{1420,0xdc4249836552d},{1420,0xe4bf343e6a62a},{1420,0xfb8104e45e977},
{1421,0x2cab6d865a90},{1421,0xd98a3cb77588},{1421,0x167cef770e718},{1421,0x1abe19e842531},{1421,0x2dc6f314427b2},{1421,0x3baac6c570f2f},{1421,0x40cfcc4042a33},{1421,0x428a8e99f51f4},{1421,0x4d52e0aa57922},{1421,0x649caba8fb1ab},{1421,0x6788a642709db},{1421,0x748ad6b27c3ce},{1421,0x80a824ae83299},{1421,0x8761f771be283},{1421,0x894313a9566ee},{1421,0x8c86bdeaec1c2},{1421,0x9aeb3bdfb869e},{1421,0x9ecde900b69bd},{1421,0xa06f7a963036c},{1421,0xa90657b997266},{1421,0xab6e072e2fd20},{1421,0xb43570db03961},{1421,0xc1efd3572b494},{1421,0xd0af1ca66f71b},{1421,0xd799edb6de378},{1421,0xd9802a28296c6},{1421,0xdc4249836552d},{1421,0xdfd4628a83f1e},{1421,0xe4bf343e6a62a},{1421,0xf33ed7776d6a1},{1421,0xf5f0321eaf116},{1421,0xfb8104e45e977},
{1422,0x7b540bc422b0},{1422,0xd98a3cb77588},{1422,0x12463fa6e3e61},{1422,0x167cef770e718},{1422,0x1aff3ff39a7e7},{1422,0x1f792522b7c80},{1422,0x2232e83e8aab5},{1422,0x2bfe2004c9a9c},{1422,0x2dc6f314427b2},{1422,0x3baac6c570f2f},{1422,0x428a8e99f51f4},{1422,0x4d52e0aa57922},{1422,0x581acebbf697e},{1422,0x649caba8fb1ab},{1422,0x66e17e9842f35},{1422,0x78b9ca318318e},{1422,0x8761f771be283},{1422,0x9ecde900b69bd},{1422,0xb43570db03961},{1422,0xba35b303f0eb2},{1422,0xbe0e91ea4fa1d},{1422,0xbfe8365363aeb},{1422,0xc0ad0ff30e527},{1422,0xc9d52618f9e04},{1422,0xce6827ba07ac7},{1422,0xd0af1ca66f71b},{1422,0xd2f10f7f63d6c},{1422,0xd9802a28296c6},{1422,0xdc4249836552d},{1422,0xe34fa7628f418},{1422,0xf5f0321eaf116},{1422,0xf8caa14c61eda},{1422,0xfb8104e45e977},
{1423,0x7b540bc422b0},{1423,0x88c475ee7e2f},{1423,0x12463fa6e3e61},{1423,0x1aff3ff39a7e7},{1423,0x1f792522b7c80},{1423,0x2232e83e8aab5},{1423,0x296a414f8271f},{1423,0x2c058b3354b25},{1423,0x2dc6f314427b2},{1423,0x35a3afa7996da},{1423,0x3744574f5f648},{1423,0x3836a50ca9de9},{1423,0x3baac6c570f2f},{1423,0x428a8e99f51f4},{1423,0x4b5002578d339},{1423,0x4d52e0aa57922},{1423,0x54ca6fd82469c},{1423,0x581acebbf697e},{1423,0x5916fd2f2094c},{1423,0x649caba8fb1ab},{1423,0x66e17e9842f35},{1423,0x7ba0c4bb7fe8a},{1423,0x805c0149d328f},{1423,0x8c8dac6a0342a},{1423,0x92a4ddce04b69},{1423,0x98cd7c7210022},{1423,0x9ecde900b69bd},{1423,0xc9daee960d2bc},{1423,0xcbfc465c69c78},{1423,0xce6827ba07ac7},{1423,0xd2f10f7f63d6c},{1423,0xd9802a28296c6},{1423,0xe92565ba45ad0},{1423,0xefb1178484134},{1423,0xf5f0321eaf116},{1423,0xf99b08a0c4282},
{1424,0x88c475ee7e2f},{1424,0x1b516fea643dd},{1424,0x20b7e8ba33ef0},{1424,0x26104f8f53ef9},{1424,0x296a414f8271f},{1424,0x2dc6f314427b2},{1424,0x33d828fc62d2a},{1424,0x3744574f5f648},{1424,0x3baac6c570f2f},{1424,0x3ce772f4aa41e},{1424,0x437d648e7f134},{1424,0x4d52e0aa57922},{1424,0x54ca6fd82469c},{1424,0x5916fd2f2094c},{1424,0x626f1c480545b},{1424,0x6d53281dd300e},{1424,0x73c4d1a3630e7},{1424,0x78742597034d0},{1424,0x7ba0c4bb7fe8a},{1424,0x8f584bbd918ad},{1424,0x92a4ddce04b69},{1424,0x98cd7c7210022},{1424,0x9ecde900b69bd},{1424,0xa0221bce9b6bd},{1424,0xb9f97f0b57e6a},{1424,0xbdf4a9314197f},{1424,0xbe1f61f743aaf},{1424,0xbff3357d670b7},{1424,0xc9daee960d2bc},{1424,0xd1ad8c5f1b4c1},{1424,0xd2f10f7f63d6c},{1424,0xd9802a28296c6},{1424,0xeeb5421817ee5},{1424,0xefb1178484134},{1424,0xf5f0321eaf116},
{1425,0x6e98f5ec8f37},{1425,0x897e50642576},{1425,0xb24c47cdde34},{1425,0xe26ea41d2389},{1425,0x1c24e7192622d},{1425,0x1de3e5d1de59b},{1425,0x20b7e8ba33ef0},{1425,0x26104f8f53ef9},{1425,0x37c177e0e9e2c},{1425,0x3a15e52204d33},{1425,0x3baac6c570f2f},{1425,0x3ce772f4aa41e},{1425,0x4d52e0aa57922},{1425,0x626f1c480545b},{1425,0x73c4d1a3630e7},{1425,0x78742597034d0},{1425,0x7ba0c4bb7fe8a},{1425,0x88a0d10489a79},{1425,0x903f0e8c374a6},{1425,0x9ecde900b69bd},{1425,0xa0221bce9b6bd},{1425,0xbdf4a9314197f},{1425,0xbe1f61f743aaf},{1425,0xc9daee960d2bc},{1425,0xd2f10f7f63d6c},{1425,0xd596db43a25c4},{1425,0xd962b904f3e45},{1425,0xd9802a28296c6},{1425,0xdb2cb5b967f1f},{1425,0xeeb5421817ee5},{1425,0xf0f8038353cd5},{1425,0xf5f0321eaf116},
{1426,0x6e98f5ec8f37},{1426,0x1c24e7192622d},{1426,0x1de3e5d1de59b},{1426,0x1e90d40fa6af4},{1426,0x20b7e8ba33ef0},{1426,0x2432ed6a46920},{1426,0x26104f8f53ef9},{1426,0x3303ef3e6b1fc},{1426,0x36a0172b4bf34},{1426,0x37c177e0e9e2c},{1426,0x3baac6c570f2f},{1426,0x3ce772f4aa41e},{1426,0x421c54e0e1200},{1426,0x443fb5ebac9aa},{1426,0x4b5002578d339},{1426,0x5f0300d03ce2c},{1426,0x626f1c480545b},{1426,0x64b3e6f7b0039},{1426,0x7013c8b7e621a},{1426,0x73c4d1a3630e7},{1426,0x7ba0c4bb7fe8a},{1426,0x809e82a45df0c},{1426,0x88a0d10489a79},{1426,0x98f219cd535cb},{1426,0x9ecde900b69bd},{1426,0xa0221bce9b6bd},{1426,0xada59bde838d6},{1426,0xb2389d7f91599},{1426,0xbcfd4f5d0f46e},{1426,0xc9daee960d2bc},{1426,0xcb9955a12273e},{1426,0xd15e298a95d37},{1426,0xd596db43a25c4},{1426,0xd93e0211034fd},{1426,0xd962b904f3e45},{1426,0xdd69790cb07c9},{1426,0xeeb5421817ee5},{1426,0xefb1178484134},
{1427,0x545def3e125e},{1427,0x6e98f5ec8f37},{1427,0x133b1a33a1108},{1427,0x1c24e7192622d},{1427,0x1de3e5d1de59b},{1427,0x20b7e8ba33ef0},{1427,0x37c177e0e9e2c},{1427,0x3ce772f4aa41e},{1427,0x443fb5ebac9aa},{1427,0x59206df365edf},{1427,0x5ede8cce30845},{1427,0x5f0300d03ce2c},{1427,0x60312472b9c53},{1427,0x626f1c480545b},{1427,0x64b3e6f7b0039},{1427,0x672ec24c5bbe3},{1427,0x7013c8b7e621a},{1427,0x73c4d1a3630e7},{1427,0x77a107ae3a169},{1427,0x7ba0c4bb7fe8a},{1427,0x809e82a45df0c},{1427,0x80ce333b7b874},{1427,0x865b75b85b359},{1427,0x88a0d10489a79},{1427,0x9375f39260e67},{1427,0x945cbdb21ed81},{1427,0xa0221bce9b6bd},{1427,0xa47f989c67f50},{1427,0xa8e33a206cdec},{1427,0xa9b49487e3f8f},{1427,0xbb5ea0c1acf1f},{1427,0xd15e298a95d37},{1427,0xd7543bcabf7ce},{1427,0xd93e0211034fd},{1427,0xdd69790cb07c9},{1427,0xe14136ccf9f4e},{1427,0xeeb5421817ee5},{1427,0xefb1178484134},{1427,0xf8af7711b928c},{1427,0xf95c1c15c09d0},{1427,0xfe0687d5723ea},
{1428,0x545def3e125e},{1428,0x6e98f5ec8f37},{1428,0x133b1a33a1108},{1428,0x1c24e7192622d},{1428,0x1de3e5d1de59b},{1428,0x20b7e8ba33ef0},{1428,0x2c340d1f7477d},{1428,0x37143fb4d47fa},{1428,0x37c177e0e9e2c},{1428,0x3ce772f4aa41e},{1428,0x4dedf59c155c1},{1428,0x5c47d58e32b50},{1428,0x5ede8cce30845},{1428,0x5f0300d03ce2c},{1428,0x626f1c480545b},{1428,0x6bc1c3ed698a6},{1428,0x7013c8b7e621a},{1428,0x72e5568a8b905},{1428,0x73c4d1a3630e7},{1428,0x7ba0c4bb7fe8a},{1428,0x7d1023addf220},{1428,0x809e82a45df0c},{1428,0x88a0d10489a79},{1428,0x8cb3afe5f68be},{1428,0x91d1f481054db},{1428,0xa47f989c67f50},{1428,0xc353ac6cfdf32},{1428,0xcc34eb4ffdf3a},{1428,0xd0b6060c3bd21},{1428,0xd7543bcabf7ce},{1428,0xd93e0211034fd},{1428,0xe8eb8595f2e38},{1428,0xebca9503582eb},{1428,0xeeb5421817ee5},{1428,0xf41c7570ab5c9},{1428,0xf8af7711b928c},{1428,0xf95c1c15c09d0},{1428,0xfe0687d5723ea},
{1429,0xf7eb5cfca76},{1429,0x545def3e125e},{1429,0x60d686a78dee},{1429,0x6e98f5ec8f37},{1429,0x10264629372c1},{1429,0x133b1a33a1108},{1429,0x1c5cb19ef3451},{1429,0x1de3e5d1de59b},{1429,0x257e490a4579a},{1429,0x37c177e0e9e2c},{1429,0x3ce772f4aa41e},{1429,0x54e2bbc8248d7},{1429,0x570f8d076790a},{1429,0x5f0300d03ce2c},{1429,0x626f1c480545b},{1429,0x7013c8b7e621a},{1429,0x73c4d1a3630e7},{1429,0x79507f82545a4},{1429,0x7ba0c4bb7fe8a},{1429,0x87343dbfc9fe4},{1429,0x88a0d10489a79},{1429,0xa23d6bd7cf704},{1429,0xa47f989c67f50},{1429,0xa55490e8c4598},{1429,0xb2462528b9661},{1429,0xbd1d9f7a6528d},{1429,0xbed0d02591ac8},{1429,0xc353ac6cfdf32},{1429,0xd93e0211034fd},{1429,0xe27ab8db71887},{1429,0xf2d42cf2a13fb},{1429,0xf41c7570ab5c9},{1429,0xf76fdbe296239},{1429,0xfe0687d5723ea},{1429,0xfe3cba78c3b1e},
{1430,0xe86226149cb},{1430,0x2c28adcc2d82},{1430,0x6e98f5ec8f37},{1430,0xa1982c84edbf},{1430,0xb87eac4000fc},{1430,0x133b1a33a1108},{1430,0x186888b39caf2},{1430,0x1c5cb19ef3451},{1430,0x227b0d862c708},{1430,0x257e490a4579a},{1430,0x2e9fe07597ae3},{1430,0x3b3a9e8e45977},{1430,0x426c35232a350},{1430,0x4355f5876b67d},{1430,0x44fb644e466b3},{1430,0x4a04a6b78e4be},{1430,0x5f0300d03ce2c},{1430,0x626f1c480545b},{1430,0x7013c8b7e621a},{1430,0x73c4d1a3630e7},{1430,0x79507f82545a4},{1430,0x7ba0c4bb7fe8a},{1430,0x7cdede28b5199},{1430,0x82198edb7a6ef},{1430,0x87343dbfc9fe4},{1430,0xa47f989c67f50},{1430,0xa55490e8c4598},{1430,0xb59a56c2fc990},{1430,0xbd1d9f7a6528d},{1430,0xd0b6060c3bd21},{1430,0xd93e0211034fd},{1430,0xdd69790cb07c9},{1430,0xe27ab8db71887},{1430,0xf41c7570ab5c9},{1430,0xf76fdbe296239},
{1431,0xe86226149cb},{1431,0x6e98f5ec8f37},{1431,0x133b1a33a1108},{1431,0x16a504e6ebea7},{1431,0x17cbe5e94a2ad},{1431,0x1c5cb19ef3451},{1431,0x20ed7d549c5f6},{1431,0x28f463b8572f6},{1431,0x31ef4c83c983e},{1431,0x35c3e057883bf},{1431,0x41e436c3bf068},{1431,0x426c35232a350},{1431,0x44fb644e466b3},{1431,0x4a04a6b78e4be},{1431,0x52e288e7b856c},{1431,0x5ef2474e387dd},{1431,0x5f0300d03ce2c},{1431,0x626f1c480545b},{1431,0x6641e1bb2f520},{1431,0x7013c8b7e621a},{1431,0x73c4d1a3630e7},{1431,0x77ac9bd02952b},{1431,0x94f02ae419cc4},{1431,0xaf443cc544bd9},{1431,0xb59a56c2fc990},{1431,0xb5debe8f72b99},{1431,0xbd1d9f7a6528d},{1431,0xcaee0e79fb1ab},{1431,0xd0b6060c3bd21},{1431,0xdd69790cb07c9},{1431,0xdde9f6e62b8a6},{1431,0xded900c363222},{1431,0xe27ab8db71887},{1431,0xf17d1636c850a},{1431,0xf41c7570ab5c9},{1431,0xf76fdbe296239},
{1432,0x588b712a5c1b},{1432,0x6e98f5ec8f37},{1432,0xbe6532dddb81},{1432,0x16a504e6ebea7},{1432,0x17cbe5e94a2ad},{1432,0x1c5cb19ef3451},{1432,0x1ceb6548cbabe},{1432,0x26fa0ff395226},{1432,0x28f463b8572f6},{1432,0x3330ac2b40c88},{1432,0x35c3e057883bf},{1432,0x41e436c3bf068},{1432,0x426c35232a350},{1432,0x44fb644e466b3},{1432,0x470a908861515},{1432,0x495d2b538cf53},{1432,0x4a04a6b78e4be},{1432,0x5ef2474e387dd},{1432,0x5f0300d03ce2c},{1432,0x626f1c480545b},{1432,0x6641e1bb2f520},{1432,0x73c4d1a3630e7},{1432,0x77e21a59a054f},{1432,0x80aa0724c7c95},{1432,0x94f02ae419cc4},{1432,0xa3b1d8ddef403},{1432,0xa777c9fdb53b4},{1432,0xa842a493985a8},{1432,0xacd370494174c},{1432,0xaf443cc544bd9},{1432,0xb034c9e17e7f8},{1432,0xb59a56c2fc990},{1432,0xbc58a9fb49277},{1432,0xbd1d9f7a6528d},{1432,0xcaee0e79fb1ab},{1432,0xded900c363222},{1432,0xe412f0f768fad},{1432,0xf055cb0b16dd6},{1432,0xf76fdbe296239},{1432,0xfdecde0b069b1},
{1433,0x588b712a5c1b},{1433,0x6e98f5ec8f37},{1433,0x94cc177c50d1},{1433,0x1305947172b2d},{1433,0x1c5cb19ef3451},{1433,0x2271c3c7a5634},{1433,0x26fa0ff395226},{1433,0x28f463b8572f6},{1433,0x3330ac2b40c88},{1433,0x34b3228b5fabb},{1433,0x37e6f71842015},{1433,0x3d9d9f3691e4b},{1433,0x41e436c3bf068},{1433,0x426c35232a350},{1433,0x44fb644e466b3},{1433,0x495d2b538cf53},{1433,0x4a04a6b78e4be},{1433,0x62d2b5b9871a4},{1433,0x794d19265812b},{1433,0x80aa0724c7c95},{1433,0x83425a5f872f1},{1433,0x94f02ae419cc4},{1433,0x991d00e76af1f},{1433,0x9f210d284625f},{1433,0xaf443cc544bd9},{1433,0xafc183f41575c},{1433,0xb59a56c2fc990},{1433,0xb5f507b493a95},{1433,0xbc288b7511dcf},{1433,0xbc58a9fb49277},{1433,0xe412f0f768fad},{1433,0xec54be9484483},{1433,0xedc1666cff8f3},{1433,0xf055cb0b16dd6},{1433,0xf76fdbe296239},{1433,0xf8074cd1ca859},{1433,0xfcb0522ea3d13},
{1434,0x6e98f5ec8f37},{1434,0x1c5cb19ef3451},{1434,0x24cf903499165},{1434,0x26fa0ff395226},{1434,0x272412e305bc2},{1434,0x34b3228b5fabb},{1434,0x39a7bbc59bc62},{1434,0x3d8b9733af505},{1434,0x41e436c3bf068},{1434,0x43d122f710185},{1434,0x44fb644e466b3},{1434,0x4a04a6b78e4be},{1434,0x4ce5ce84decca},{1434,0x506e71b630a41},{1434,0x62d2b5b9871a4},{1434,0x681199f5ebedd},{1434,0x6928dca9c3773},{1434,0x6b976cea89d0f},{1434,0x794d19265812b},{1434,0x80aa0724c7c95},{1434,0x8d287407f2b7e},{1434,0x94f02ae419cc4},{1434,0x991d00e76af1f},{1434,0x9e81589008786},{1434,0x9f210d284625f},{1434,0xa70912e2fdacb},{1434,0xab006d2f0712b},{1434,0xb40f0654b61dc},{1434,0xb59a56c2fc990},{1434,0xb5f507b493a95},{1434,0xd4c1a643a6ff2},{1434,0xe412f0f768fad},{1434,0xebed383316581},{1434,0xf055cb0b16dd6},{1434,0xf298a127cad96},{1434,0xf76fdbe296239},{1434,0xfc47169d616dc},{1434,0xfcb0522ea3d13},
{1435,0x6e98f5ec8f37},{1435,0x1c142d9721bde},{1435,0x1c5cb19ef3451},{1435,0x26fa0ff395226},{1435,0x3d8b9733af505},{1435,0x41e436c3bf068},{1435,0x42c2c7245b5e2},{1435,0x44fb644e466b3},{1435,0x4a04a6b78e4be},{1435,0x506e71b630a41},{1435,0x62d2b5b9871a4},{1435,0x631f1d5189a38},{1435,0x674bf354dac93},{1435,0x6dde1ab72eac3},{1435,0x739599eec35f7},{1435,0x7ffcd73610faa},{1435,0x80aa0724c7c95},{1435,0x94f02ae419cc4},{1435,0x991d00e76af1f},{1435,0xab006d2f0712b},{1435,0xb40f0654b61dc},{1435,0xb5f507b493a95},{1435,0xc58722adae3f0},{1435,0xcec316b68c77b},{1435,0xcf1ae47d4c406},{1435,0xe412f0f768fad},{1435,0xebed383316581},{1435,0xf0389a0297d26},{1435,0xf055cb0b16dd6},{1435,0xf76fdbe296239},{1435,0xfc47169d616dc},
{1436,0xc0384365cc31},{1436,0xdd8f2788d699},{1436,0x1c142d9721bde},{1436,0x2beecc980ddac},{1436,0x3d8b9733af505},{1436,0x43d122f710185},{1436,0x46bffc409a0fb},{1436,0x506e71b630a41},{1436,0x5ef421e69282a},{1436,0x62d2b5b9871a4},{1436,0x6b0e34b98ebc2},{1436,0x6dde1ab72eac3},{1436,0x739599eec35f7},{1436,0x79c9537592c70},{1436,0x7a2ecc414a03f},{1436,0x7ffcd73610faa},{1436,0x92979cb8288b5},{1436,0x94f02ae419cc4},{1436,0x991d00e76af1f},{1436,0xa3ef26cc6363d},{1436,0xafc183f41575c},{1436,0xb40f0654b61dc},{1436,0xb5f507b493a95},{1436,0xbeb0870545452},{1436,0xe412f0f768fad},{1436,0xe5b9b47298247},{1436,0xebed383316581},{1436,0xf0389a0297d26},{1436,0xf055cb0b16dd6},{1436,0xf76fdbe296239},{1436,0xfc47169d616dc},
{1437,0xdd8f2788d699},{1437,0x24c78db50609b},{1437,0x26ae172b17443},{1437,0x284895d291019},{1437,0x2e8bd69aa19cc},{1437,0x39957d204c5f4},{1437,0x3d8b9733af505},{1437,0x3dbcd9f205b2e},{1437,0x43d122f710185},{1437,0x4609c084f0697},{1437,0x506e71b630a41},{1437,0x55f5d1e70f6ab},{1437,0x62d2b5b9871a4},{1437,0x6dde1ab72eac3},{1437,0x750379bca88c4},{1437,0x79c9537592c70},{1437,0x7a2ecc414a03f},{1437,0x7c28d8c2226c5},{1437,0x8a7396cd162c7},{1437,0x8bee026592196},{1437,0x9709527e8e482},{1437,0x991d00e76af1f},{1437,0x9ecc04f397cf0},{1437,0xa3ef26cc6363d},{1437,0xa94fc0afa287f},{1437,0xafc183f41575c},{1437,0xb5f507b493a95},{1437,0xb6325db4042c0},{1437,0xb7cc78fa80caf},{1437,0xbeb0870545452},{1437,0xcdaf81577cc3b},{1437,0xd7749083ee8bc},{1437,0xe412f0f768fad},{1437,0xe5b9b47298247},{1437,0xebed383316581},{1437,0xf0389a0297d26},{1437,0xf055cb0b16dd6},{1437,0xf8a484ae8984a},{1437,0xfc47169d616dc},
{1438,0xdd8f2788d699},{1438,0x104aa78b2b0d1},{1438,0x186588f5b1666},{1438,0x24c78db50609b},{1438,0x284895d291019},{1438,0x2e8bd69aa19cc},{1438,0x338fcba50d3e1},{1438,0x39957d204c5f4},{1438,0x3b8e4470a3f42},{1438,0x3d8b9733af505},{1438,0x40f24f3f8ea2b},{1438,0x506e71b630a41},{1438,0x55f5d1e70f6ab},{1438,0x62d2b5b9871a4},{1438,0x654e9efbbd540},{1438,0x740bac068fdbd},{1438,0x750379bca88c4},{1438,0x7a2ecc414a03f},{1438,0x8a7396cd162c7},{1438,0x8f0ef986d6b3e},{1438,0x9709527e8e482},{1438,0x991d00e76af1f},{1438,0x99f5278f401be},{1438,0xa0f1850d12e16},{1438,0xa3ef26cc6363d},{1438,0xaa03dc85128a9},{1438,0xb734d56a76566},{1438,0xb7cc78fa80caf},{1438,0xbeb0870545452},{1438,0xbee6d561d7ab8},{1438,0xc5d1c1e7f26b2},{1438,0xd3f388666393e},{1438,0xd5a3ca65c17a0},{1438,0xd7749083ee8bc},{1438,0xdffc0d0395394},{1438,0xe3d69543432f1},{1438,0xe412f0f768fad},{1438,0xebed383316581},{1438,0xf13503509dfad},{1438,0xf37b1bd102291},{1438,0xf8a484ae8984a},{1438,0xfc47169d616dc},{1438,0xfd5b3297dd644},
{1439,0x4c09076fcb09},{1439,0xafa1ec10bf40},{1439,0xdd8f2788d699},{1439,0x11cde9e58a944},{1439,0x1b7475ac8ce76},{1439,0x284895d291019},{1439,0x29b23e4994403},{1439,0x39957d204c5f4},{1439,0x3d8b9733af505},{1439,0x40f24f3f8ea2b},{1439,0x42dc578bf6e40},{1439,0x4e5a4d38eb016},{1439,0x654e9efbbd540},{1439,0x66b8bbb1b4cc2},{1439,0x6e6fc62a57e30},{1439,0x750379bca88c4},{1439,0x76ea7fbe11517},{1439,0x7a2ecc414a03f},{1439,0x7f86fae495b23},{1439,0x8f0ef986d6b3e},{1439,0x9709527e8e482},{1439,0x991d00e76af1f},{1439,0x99f5278f401be},{1439,0xa0f1850d12e16},{1439,0xace2b03c94002},{1439,0xade1d10009941},{1439,0xb7cc78fa80caf},{1439,0xb95fc6acfdb17},{1439,0xbeb0870545452},{1439,0xc054b52fbcd85},{1439,0xc66f5ea0149cb},{1439,0xd1e94d03d8ed1},{1439,0xd5a3ca65c17a0},{1439,0xdffc0d0395394},{1439,0xe027f0a1d2d79},{1439,0xe28fae9d0973a},{1439,0xebed383316581},{1439,0xee421ca23a339},{1439,0xfc9a9ec1ec75b},{1439,0xfd5b3297dd644},
{1440,0xafa1ec10bf40},{1440,0xdd8f2788d699},{1440,0xf02ef42e4be7},{1440,0x11cde9e58a944},{1440,0x1f43057af20b8},{1440,0x284895d291019},{1440,0x29b23e4994403},{1440,0x2e8bd69aa19cc},{1440,0x40f24f3f8ea2b},{1440,0x42dc578bf6e40},{1440,0x461e708e78825},{1440,0x46aff6ae918de},{1440,0x4e5a4d38eb016},{1440,0x654e9efbbd540},{1440,0x712cd84f0e664},{1440,0x750379bca88c4},{1440,0x7a2ecc414a03f},{1440,0x8438433a31ec9},{1440,0x90772e2191ee0},{1440,0x9709527e8e482},{1440,0x99f5278f401be},{1440,0xaa03dc85128a9},{1440,0xade1d10009941},{1440,0xb7cc78fa80caf},{1440,0xb95fc6acfdb17},{1440,0xc3af8ec4d292c},{1440,0xc5d1c1e7f26b2},{1440,0xc66f5ea0149cb},{1440,0xd1e94d03d8ed1},{1440,0xe28fae9d0973a},{1440,0xe2dae0bb16aee},{1440,0xfc678f1e974b7},
{1441,0x4f235e55e973},{1441,0x79c5012c70a3},{1441,0xdd8f2788d699},{1441,0xf02ef42e4be7},{1441,0x284895d291019},{1441,0x29b23e4994403},{1441,0x2e8bd69aa19cc},{1441,0x40f24f3f8ea2b},{1441,0x461e708e78825},{1441,0x4e5a4d38eb016},{1441,0x52ed8b85db564},{1441,0x540ff81527d83},{1441,0x64280afdb4001},{1441,0x750379bca88c4},{1441,0x7a2ecc414a03f},{1441,0x83b0d6efd19fb},{1441,0x9709527e8e482},{1441,0x99f5278f401be},{1441,0x9e3ec6f8efa25},{1441,0xaa03dc85128a9},{1441,0xade1d10009941},{1441,0xc3af8ec4d292c},{1441,0xc5d1c1e7f26b2},{1441,0xc66f5ea0149cb},{1441,0xd61e79a8eaeef},{1441,0xe2dae0bb16aee},{1441,0xe636132df41fa},{1441,0xe990026c03ee6},{1441,0xef6b629d3570b},
{1442,0x4f235e55e973},{1442,0xf02ef42e4be7},{1442,0x114caa78a8c6d},{1442,0x297d6a37c0376},{1442,0x318973ac064b5},{1442,0x3f908113544d9},{1442,0x461e708e78825},{1442,0x4db8a6714ef10},{1442,0x4e5a4d38eb016},{1442,0x62519317b0213},{1442,0x6a24288c51032},{1442,0x7a2ecc414a03f},{1442,0x83b0d6efd19fb},{1442,0xa5101ac7f31e3},{1442,0xade1d10009941},{1442,0xb4cd176f3fba5},{1442,0xc3af8ec4d292c},{1442,0xc66f5ea0149cb},{1442,0xe636132df41fa},{1442,0xe7cea278361b3},{1442,0xef6b629d3570b},
{1443,0x1ba31930f782f},{1443,0x1f930b676d243},{1443,0x204631777584e},{1443,0x256f8082ba997},{1443,0x318973ac064b5},{1443,0x3237b9d7478db},{1443,0x3756c847ecde8},{1443,0x3f908113544d9},{1443,0x461e708e78825},{1443,0x4db8a6714ef10},{1443,0x4e5a4d38eb016},{1443,0x5cdfa6aa4f28c},{1443,0x76967c7e49651},{1443,0x7946378382330},{1443,0x7a2ecc414a03f},{1443,0x7d88f54a5bd9c},{1443,0x977df1d844df2},{1443,0x9849c39632cff},{1443,0xaa4c9f951f105},{1443,0xade1d10009941},{1443,0xb4cd176f3fba5},{1443,0xc3af8ec4d292c},{1443,0xc66f5ea0149cb},{1443,0xc8da30bd7025d},{1443,0xcd1cee8449cc9},{1443,0xcd780e62d1ffd},{1443,0xd21c3d063a958},{1443,0xd8ba7f519c84f},{1443,0xe636132df41fa},{1443,0xe9e3907dd411f},{1443,0xf494f9a9f6698},{1443,0xf779556284e61},
{1444,0x327894c6b121},{1444,0x743337fc0de3},{1444,0x1ba31930f782f},{1444,0x1f930b676d243},{1444,0x204631777584e},{1444,0x3bfe8d826f366},{1444,0x4ae8f2b920c37},{1444,0x4e5a4d38eb016},{1444,0x586a0f9d71488},{1444,0x5cdfa6aa4f28c},{1444,0x73013503c0e07},{1444,0x78358811cbc95},{1444,0x7a2ecc414a03f},{1444,0x7d88f54a5bd9c},{1444,0x833e2252b4d24},{1444,0x977df1d844df2},{1444,0xa974a5c973447},{1444,0xaa4c9f951f105},{1444,0xade1d10009941},{1444,0xb1411d443d2dc},{1444,0xc3af8ec4d292c},{1444,0xc66f5ea0149cb},{1444,0xc8da30bd7025d},{1444,0xd8ba7f519c84f},{1444,0xe636132df41fa},{1444,0xed1a6502d329b},
{1445,0x327894c6b121},{1445,0x1cea04f5074bf},{1445,0x1f930b676d243},{1445,0x204631777584e},{1445,0x245ed111042fc},{1445,0x2790df66276cd},{1445,0x494a203597025},{1445,0x4ae8f2b920c37},{1445,0x4e5a4d38eb016},{1445,0x628bdf7d3563b},{1445,0x71fae01e240bd},{1445,0x73013503c0e07},{1445,0x78358811cbc95},{1445,0x7a2ecc414a03f},{1445,0x7d88f54a5bd9c},{1445,0x7fcdb53e94179},{1445,0x914113d3756cd},{1445,0x91d1b9055ea43},{1445,0x9cb849d1eabe9},{1445,0xa126d00da2ad4},{1445,0xa974a5c973447},{1445,0xade1d10009941},{1445,0xbd925228a4bf6},{1445,0xc66f5ea0149cb},{1445,0xc8da30bd7025d},{1445,0xcc0c3f129362e},{1445,0xdac615785bd61},{1445,0xde27e59fb0679},{1445,0xe085104ed5e4c},{1445,0xf026736e3e7ad},
{1446,0x327894c6b121},{1446,0xfad4f2d3fe3d},{1446,0x1cea04f5074bf},{1446,0x1f930b676d243},{1446,0x204631777584e},{1446,0x4e5a4d38eb016},{1446,0x628bdf7d3563b},{1446,0x64cc6f7514226},{1446,0x6e5d55df3fb3d},{1446,0x6e92aec808f1d},{1446,0x78358811cbc95},{1446,0x7a2ecc414a03f},{1446,0x7d88f54a5bd9c},{1446,0x84bb4df2a09b1},{1446,0x860042a354541},{1446,0x914113d3756cd},{1446,0x91d1b9055ea43},{1446,0xa126d00da2ad4},{1446,0xade1d10009941},{1446,0xc5fd5cf4e53f6},{1446,0xc84b2b24f7ec0},{1446,0xca5cb573d6f1b},{1446,0xd4424d89c3aca},{1446,0xd8ba7f519c84f},{1446,0xde27e59fb0679},{1446,0xe3b82d6a3a972},{1446,0xe80d7db59d228},{1446,0xf026736e3e7ad},{1446,0xf56f42da1bfad},
{1447,0x327894c6b121},{1447,0x96a6c3cd57af},{1447,0x1cea04f5074bf},{1447,0x1f930b676d243},{1447,0x204631777584e},{1447,0x27748f9301d31},{1447,0x2df490af544bf},{1447,0x38dd1c0a3a01f},{1447,0x4e5a4d38eb016},{1447,0x628bdf7d3563b},{1447,0x6e5d55df3fb3d},{1447,0x7321c7362d622},{1447,0x7446111044dbe},{1447,0x7448ae4e36b87},{1447,0x78358811cbc95},{1447,0x7a2ecc414a03f},{1447,0x7d88f54a5bd9c},{1447,0x801787724f2c0},{1447,0x84bb4df2a09b1},{1447,0x860042a354541},{1447,0x87dcbf6ad5cf8},{1447,0x8afe30e30b03f},{1447,0x9da32f6768f45},{1447,0xa2a8bfe1f5039},{1447,0xacabed3210c0e},{1447,0xade1d10009941},{1447,0xb6d26575f3e21},{1447,0xc386c384e0156},{1447,0xc66907d33fbbf},{1447,0xc84b2b24f7ec0},{1447,0xd4424d89c3aca},{1447,0xd8ba7f519c84f},{1447,0xde27e59fb0679},{1447,0xf026736e3e7ad},{1447,0xf9be932aa1023},
{1448,0x327894c6b121},{1448,0x648fac4a0468},{1448,0x7d772e6596ff},{1448,0x14c12a871825c},{1448,0x1f930b676d243},{1448,0x204631777584e},{1448,0x26f01f0833413},{1448,0x27748f9301d31},{1448,0x2caf19dead4fe},{1448,0x2df490af544bf},{1448,0x450037881b9b6},{1448,0x48bdc4a9e0b92},{1448,0x49b3fc56d1738},{1448,0x4e5a4d38eb016},{1448,0x53b7e5692179e},{1448,0x5411ae784f27f},{1448,0x628bdf7d3563b},{1448,0x62e7d32f8b879},{1448,0x67203d5ccc95f},{1448,0x7321c7362d622},{1448,0x7446111044dbe},{1448,0x7448ae4e36b87},{1448,0x78358811cbc95},{1448,0x7a2ecc414a03f},{1448,0x801787724f2c0},{1448,0x84bb4df2a09b1},{1448,0x87dcbf6ad5cf8},{1448,0x9783f6c3dfd5b},{1448,0x9da32f6768f45},{1448,0xa04bea0a44dff},{1448,0xa087dc679df79},{1448,0xade1d10009941},{1448,0xbb2ed75c82bca},{1448,0xbc01996c8a253},{1448,0xc66907d33fbbf},{1448,0xd3d03215554b2},{1448,0xde27e59fb0679},{1448,0xf026736e3e7ad},{1448,0xf6c6bc4eb8052},
{1449,0x4b8420885ac4},{1449,0x648fac4a0468},{1449,0x1225a6b7f9684},{1449,0x15b32e84c5152},{1449,0x204631777584e},{1449,0x2caf19dead4fe},{1449,0x326e14b5275e9},{1449,0x41031f93d1b9f},{1449,0x49b3fc56d1738},{1449,0x4e5a4d38eb016},{1449,0x5411ae784f27f},{1449,0x5e6ae1c67f6ad},{1449,0x628bdf7d3563b},{1449,0x62e7d32f8b879},{1449,0x67203d5ccc95f},{1449,0x6ccd6b4578428},{1449,0x70a784cf0b4cf},{1449,0x7448ae4e36b87},{1449,0x78358811cbc95},{1449,0x7a2ecc414a03f},{1449,0x801787724f2c0},{1449,0x864c06aebb355},{1449,0x87dcbf6ad5cf8},{1449,0x8d3d5b25c771f},{1449,0x9783f6c3dfd5b},{1449,0x9b68aafd7ffa7},{1449,0x9da32f6768f45},{1449,0xa04bea0a44dff},{1449,0xa087dc679df79},{1449,0xade1d10009941},{1449,0xb0b015478eb83},{1449,0xbc01996c8a253},{1449,0xbeb76aad286cd},{1449,0xde27e59fb0679},{1449,0xe256c820e94d6},{1449,0xef6b27d4412e0},{1449,0xf026736e3e7ad},
{1450,0x617d435dda},{1450,0x4b8420885ac4},{1450,0x7d9b380bae0b},{1450,0x1ae601cad6ddf},{1450,0x204631777584e},{1450,0x27748f9301d31},{1450,0x326e14b5275e9},{1450,0x464a80b9adbde},{1450,0x4e5a4d38eb016},{1450,0x4fc16f5cad937},{1450,0x5411ae784f27f},{1450,0x5d98f5ea8ddef},{1450,0x5e6ae1c67f6ad},{1450,0x67203d5ccc95f},{1450,0x6be3e115ebf17},{1450,0x6ccd6b4578428},{1450,0x6e20f2fc573dc},{1450,0x70a784cf0b4cf},{1450,0x7448ae4e36b87},{1450,0x78358811cbc95},{1450,0x7a2ecc414a03f},{1450,0x800923be50cc7},{1450,0x801787724f2c0},{1450,0x83b613b388baf},{1450,0x87d8aca5db597},{1450,0x87dcbf6ad5cf8},{1450,0x8fb05b175ad2a},{1450,0xa087dc679df79},{1450,0xbb2ed75c82bca},{1450,0xbeb76aad286cd},{1450,0xbf57e103a72f9},{1450,0xc4766583a27b8},{1450,0xc6799ccefde84},{1450,0xc96efe1bfde12},{1450,0xcfc55c20b78fe},{1450,0xd97796b7bd29f},{1450,0xde27e59fb0679},
{1451,0x285fda0a198b},{1451,0x7d9b380bae0b},{1451,0x14fd4699d1b5e},{1451,0x1ae601cad6ddf},{1451,0x1b6231e18c5ca},{1451,0x1f4a1c673d011},{1451,0x2581616119b51},{1451,0x27748f9301d31},{1451,0x326e14b5275e9},{1451,0x33d62fcf1a25e},{1451,0x3406086a0e35f},{1451,0x361ea3be32b83},{1451,0x4417ce93824f9},{1451,0x464a80b9adbde},{1451,0x47db3975c8582},{1451,0x4a8a67061070f},{1451,0x4fc16f5cad937},{1451,0x625c99a3ad3a7},{1451,0x6713a01241c6b},{1451,0x67203d5ccc95f},{1451,0x6be3e115ebf17},{1451,0x6d14ca0433c85},{1451,0x6e20f2fc573dc},{1451,0x6e45b2f27b9f3},{1451,0x70a784cf0b4cf},{1451,0x7448ae4e36b87},{1451,0x756b28882aa87},{1451,0x78358811cbc95},{1451,0x7a2ecc414a03f},{1451,0x801787724f2c0},{1451,0x87dcbf6ad5cf8},{1451,0x8cbcac3bc481b},{1451,0x95a62785514ae},{1451,0xa087dc679df79},{1451,0xa8a5dec369d85},{1451,0xa9d3317c8396f},{1451,0xafefdeb5a2939},{1451,0xbb2ed75c82bca},{1451,0xc4766583a27b8},{1451,0xc7de455fe346f},{1451,0xd97796b7bd29f},{1451,0xde27e59fb0679},{1451,0xe01d694ee2f70},{1451,0xe8915ca2dcb1f},{1451,0xf52dab4c6fdd9},{1451,0xfdec31e4670e6},{1451,0xfe172695fca6c},
{1452,0x70e72ec84b7e},{1452,0x7d9b380bae0b},{1452,0x1278b697ff937},{1452,0x14fd4699d1b5e},{1452,0x184671b47026c},{1452,0x1b6231e18c5ca},{1452,0x23f0a8a4ff1ae},{1452,0x32b8346873a77},{1452,0x3406086a0e35f},{1452,0x40079dc943550},{1452,0x464a80b9adbde},{1452,0x47db3975c8582},{1452,0x4a8a67061070f},{1452,0x4fc16f5cad937},{1452,0x56af1065f7c25},{1452,0x625c99a3ad3a7},{1452,0x6713a01241c6b},{1452,0x67203d5ccc95f},{1452,0x69820f395c43b},{1452,0x6be3e115ebf17},{1452,0x6d14ca0433c85},{1452,0x6e45b2f27b9f3},{1452,0x70a784cf0b4cf},{1452,0x730956ab9afab},{1452,0x77782fbe8bcb2},{1452,0x78358811cbc95},{1452,0x7a2ecc414a03f},{1452,0x87dcbf6ad5cf8},{1452,0x8cbcac3bc481b},{1452,0x911fda19995b9},{1452,0x9200fedee6cd7},{1452,0x95a62785514ae},{1452,0x98414f171fd3f},{1452,0xa087dc679df79},{1452,0xa461dcfb1f1e9},{1452,0xa83bdd8ea0459},{1452,0xa9d3317c8396f},{1452,0xc7de455fe346f},{1452,0xcda62055b2d9d},{1452,0xde27e59fb0679},{1452,0xe1c9c02b28b06},{1452,0xf52dab4c6fdd9},{1452,0xfe172695fca6c},{1452,0xff1d1ad2aee54},
{1453,0x7d9b380bae0b},{1453,0x14fd4699d1b5e},{1453,0x1b6231e18c5ca},{1453,0x23f0a8a4ff1ae},{1453,0x35e5f10d63b98},{1453,0x40079dc943550},{1453,0x4a8a67061070f},{1453,0x4fc16f5cad937},{1453,0x56738054ded5b},{1453,0x625c99a3ad3a7},{1453,0x6ab2f827a41a9},{1453,0x6be3e115ebf17},{1453,0x6d14ca0433c85},{1453,0x6e45b2f27b9f3},{1453,0x6f769be0c3761},{1453,0x7a2ecc414a03f},{1453,0x8617e5901868b},{1453,0x87dcbf6ad5cf8},{1453,0x8cbcac3bc481b},{1453,0x911fda19995b9},{1453,0xa461dcfb1f1e9},{1453,0xa83bdd8ea0459},{1453,0xb7a3dfdca4e19},{1453,0xb94c14ab846fa},{1453,0xb9d576cb8f4e8},{1453,0xc1a5641a20607},{1453,0xcda62055b2d9d},{1453,0xd187be263cb8d},{1453,0xd32012d76595f},{1453,0xd9d38dc847e59},{1453,0xf39c71dd31874},{1453,0xfe172695fca6c},{1453,0xff1d1ad2aee54},
{1454,0x7d9b380bae0b},{1454,0xe121d9f51923},{1454,0xefce87c08793},{1454,0x14fd4699d1b5e},{1454,0x1b6231e18c5ca},{1454,0x23f0a8a4ff1ae},{1454,0x35e5f10d63b98},{1454,0x3e89aaca7df79},{1454,0x4a8a67061070f},{1454,0x4fc16f5cad937},{1454,0x5c680cfc46081},{1454,0x625c99a3ad3a7},{1454,0x6851264b146cd},{1454,0x6a9bd4568dd59},{1454,0x6b4b6c9ec8060},{1454,0x6be3e115ebf17},{1454,0x6c7c558d0fdce},{1454,0x6d14ca0433c85},{1454,0x6dad3e7b57b3c},{1454,0x6e45b2f27b9f3},{1454,0x7099183b5b941},{1454,0x743a3f99e2d19},{1454,0x7a2ecc414a03f},{1454,0x8617e5901868b},{1454,0x87dcbf6ad5cf8},{1454,0x8cbcac3bc481b},{1454,0x911fda19995b9},{1454,0x9170c11a0994b},{1454,0x99d207d33a6e2},{1454,0xa461dcfb1f1e9},{1454,0xa64edd44dfb21},{1454,0xb5ccb82fdf611},{1454,0xb5e8fcf77ea85},{1454,0xb7a3dfdca4e19},{1454,0xc1a5641a20607},{1454,0xcda62055b2d9d},{1454,0xd0d8e99415964},{1454,0xd32012d76595f},{1454,0xd9d38dc847e59},{1454,0xe9c367a0f5020},{1454,0xf73284865f1b8},{1454,0xfd32e2a428583},{1454,0xfe172695fca6c},
{1455,0xe121d9f51923},{1455,0x14fd4699d1b5e},{1455,0x1b6231e18c5ca},{1455,0x23f0a8a4ff1ae},{1455,0x2cc3a7c10c751},{1455,0x2ee9c67dff92d},{1455,0x35e5f10d63b98},{1455,0x3a6343277ce12},{1455,0x4a8a67061070f},{1455,0x4fc16f5cad937},{1455,0x50d5dda9faa77},{1455,0x602d43cc0493c},{1455,0x6556dff760d3a},{1455,0x6851264b146cd},{1455,0x6a9bd4568dd59},{1455,0x6b4b6c9ec8060},{1455,0x6c7c558d0fdce},{1455,0x6cecd2ce3ee19},{1455,0x6d14ca0433c85},{1455,0x6dad3e7b57b3c},{1455,0x6e45b2f27b9f3},{1455,0x7099183b5b941},{1455,0x713ff9462f386},{1455,0x743a3f99e2d19},{1455,0x8617e5901868b},{1455,0x87dcbf6ad5cf8},{1455,0x8cbcac3bc481b},{1455,0x9170c11a0994b},{1455,0x99d207d33a6e2},{1455,0x9ac0db8a5c3d1},{1455,0xa3dea4d51c649},{1455,0xa461dcfb1f1e9},{1455,0xa5585d1fff685},{1455,0xae02de6be2001},{1455,0xb24869f8b7955},{1455,0xc1a5641a20607},{1455,0xcae5e2be2aa49},{1455,0xcda62055b2d9d},{1455,0xd5563bae2ebde},{1455,0xe2ce31fc7a34e},{1455,0xe9c367a0f5020},{1455,0xfe172695fca6c},
{1456,0x14fd4699d1b5e},{1456,0x18a7f36172332},{1456,0x1b6231e18c5ca},{1456,0x34bee885b66d4},{1456,0x3a6343277ce12},{1456,0x3f559aed56932},{1456,0x4a8a67061070f},{1456,0x4fc16f5cad937},{1456,0x50d5dda9faa77},{1456,0x596dc6a8926ee},{1456,0x5a3c984046236},{1456,0x602d43cc0493c},{1456,0x6851264b146cd},{1456,0x6b4b6c9ec8060},{1456,0x6cecd2ce3ee19},{1456,0x6d14ca0433c85},{1456,0x6e45b2f27b9f3},{1456,0x7099183b5b941},{1456,0x773485ed966ac},{1456,0x8104ecaab2946},{1456,0x835f6d50bca7e},{1456,0x8617e5901868b},{1456,0x8903c7f2831bc},{1456,0x8cbcac3bc481b},{1456,0x9170c11a0994b},{1456,0x94fb45329a66a},{1456,0x9ac0db8a5c3d1},{1456,0xa461dcfb1f1e9},{1456,0xa4dd1d0d8f437},{1456,0xa4f855b67ccae},{1456,0xa51abd16c755e},{1456,0xa5585d1fff685},{1456,0xa9325db3808f5},{1456,0xcae5e2be2aa49},{1456,0xcc5b9779fc6e9},{1456,0xcda62055b2d9d},{1456,0xfe172695fca6c},
{1457,0xaabe0d19e1aa},{1457,0x11966bd6795df},{1457,0x14fd4699d1b5e},{1457,0x1ac28d67b0bf0},{1457,0x1b6231e18c5ca},{1457,0x2087d4358fc82},{1457,0x2966613024180},{1457,0x3a6343277ce12},{1457,0x3ba707638e730},{1457,0x3dc7bad6c8783},{1457,0x3f559aed56932},{1457,0x4fc16f5cad937},{1457,0x50d5dda9faa77},{1457,0x596dc6a8926ee},{1457,0x602d43cc0493c},{1457,0x6851264b146cd},{1457,0x6b4b6c9ec8060},{1457,0x6cecd2ce3ee19},{1457,0x6d14ca0433c85},{1457,0x6e45b2f27b9f3},{1457,0x7099183b5b941},{1457,0x773485ed966ac},{1457,0x835f6d50bca7e},{1457,0x8617e5901868b},{1457,0x8cbcac3bc481b},{1457,0x9170c11a0994b},{1457,0x9ac0db8a5c3d1},{1457,0xa461dcfb1f1e9},{1457,0xa4dd1d0d8f437},{1457,0xa51abd16c755e},{1457,0xa6ca1d574fd6f},{1457,0xb2d35f244370d},{1457,0xb316cfa69b6e6},{1457,0xc7fab3baca474},{1457,0xcda62055b2d9d},{1457,0xd088c3bca25e6},{1457,0xd36b672391e2f},{1457,0xe38be746bc964},{1457,0xf940cc7ef7fb2},{1457,0xfc12f9cfdb351},{1457,0xfe172695fca6c},
{1458,0x3ad7230349a8},{1458,0xaabe0d19e1aa},{1458,0x11966bd6795df},{1458,0x14fd4699d1b5e},{1458,0x17dfea00c13a7},{1458,0x18c6c3660e3c5},{1458,0x1b6231e18c5ca},{1458,0x2087d4358fc82},{1458,0x22644988d83a5},{1458,0x228791fc8d7de},{1458,0x3a6343277ce12},{1458,0x3ba707638e730},{1458,0x3dc7bad6c8783},{1458,0x3f559aed56932},{1458,0x50d5dda9faa77},{1458,0x602d43cc0493c},{1458,0x6851264b146cd},{1458,0x6cecd2ce3ee19},{1458,0x773485ed966ac},{1458,0x835f6d50bca7e},{1458,0x8617e5901868b},{1458,0x8cbcac3bc481b},{1458,0x9170c11a0994b},{1458,0x9ac0db8a5c3d1},{1458,0x9b3b1e7bac0b2},{1458,0xa461dcfb1f1e9},{1458,0xa51abd16c755e},{1458,0xa595fd29377ac},{1458,0xa6ca1d574fd6f},{1458,0xb316cfa69b6e6},{1458,0xc7fab3baca474},{1458,0xcda62055b2d9d},{1458,0xd088c3bca25e6},{1458,0xf5b9e2d1a77c7},{1458,0xfc12f9cfdb351},{1458,0xfe172695fca6c},
{1459,0xaabe0d19e1aa},{1459,0x11966bd6795df},{1459,0x121aa332e2315},{1459,0x180de34a66050},{1459,0x194203787e613},{1459,0x1b6231e18c5ca},{1459,0x2087d4358fc82},{1459,0x2e756a92052f8},{1459,0x3ba707638e730},{1459,0x3bcc59cfee7e2},{1459,0x3f559aed56932},{1459,0x5ed1f039cebfe},{1459,0x602d43cc0493c},{1459,0x6851264b146cd},{1459,0x72c3052b3a0a2},{1459,0x81f656a84b0ae},{1459,0x8617e5901868b},{1459,0x8cbcac3bc481b},{1459,0x8f4d45e634598},{1459,0x9170c11a0994b},{1459,0x9ac0db8a5c3d1},{1459,0x9b3b1e7bac0b2},{1459,0xa079e89503841},{1459,0xa0c57c70d60a0},{1459,0xa51abd16c755e},{1459,0xa595fd29377ac},{1459,0xa6ca1d574fd6f},{1459,0xb167566aeda26},{1459,0xb316cfa69b6e6},{1459,0xbe610468c658d},{1459,0xc7fab3baca474},{1459,0xcda62055b2d9d},{1459,0xd088c3bca25e6},{1459,0xd6ef248b1e3e7},{1459,0xe43748a4ebd1d},{1459,0xf6525748cb67e},{1459,0xfc12f9cfdb351},{1459,0xfe172695fca6c},
{1460,0x64cbd2e8b0b8},{1460,0x8a798db5e926},{1460,0xaabe0d19e1aa},{1460,0x11966bd6795df},{1460,0x121aa332e2315},{1460,0x16d9c31c4da8d},{1460,0x1b6231e18c5ca},{1460,0x2087d4358fc82},{1460,0x22d12c0df0cf5},{1460,0x28c23d9d79ee4},{1460,0x3bcc59cfee7e2},{1460,0x3f559aed56932},{1460,0x3fee0f647a7e9},{1460,0x46511bbcf492c},{1460,0x5ed1f039cebfe},{1460,0x602d43cc0493c},{1460,0x6594aa30e6196},{1460,0x6fe061c44a859},{1460,0x777194bb44f64},{1460,0x785e78ac221ac},{1460,0x81f656a84b0ae},{1460,0x8617e5901868b},{1460,0x8cbcac3bc481b},{1460,0x9ac0db8a5c3d1},{1460,0xa079e89503841},{1460,0xa1a5e473ee344},{1460,0xa6ca1d574fd6f},{1460,0xadf52ff96f588},{1460,0xb0cbbe5057ac3},{1460,0xb167566aeda26},{1460,0xb316cfa69b6e6},{1460,0xb8d8000abd3dc},{1460,0xb917541848495},{1460,0xc7fab3baca474},{1460,0xc8205380a797b},{1460,0xcda62055b2d9d},{1460,0xd088c3bca25e6},{1460,0xd6ef248b1e3e7},{1460,0xdf268581cad79},{1460,0xe43748a4ebd1d},{1460,0xe544fa7f7bbb3},{1460,0xeb25e9ea87d97},{1460,0xf43888695d259},{1460,0xf8edb35dbb9e4},{1460,0xfe172695fca6c},
{1461,0x64cbd2e8b0b8},{1461,0x8a798db5e926},{1461,0x11966bd6795df},{1461,0x16d9c31c4da8d},{1461,0x1b6231e18c5ca},{1461,0x2087d4358fc82},{1461,0x22d12c0df0cf5},{1461,0x287e7e474956b},{1461,0x3bcc59cfee7e2},{1461,0x3f559aed56932},{1461,0x3fee0f647a7e9},{1461,0x407b6e09393b0},{1461,0x46511bbcf492c},{1461,0x4cbb48c0a9e29},{1461,0x5bda09ccbc56f},{1461,0x5ed1f039cebfe},{1461,0x785e78ac221ac},{1461,0x81f656a84b0ae},{1461,0x8cbac3c9a5b33},{1461,0x8cbcac3bc481b},{1461,0x95443230f0325},{1461,0x9ac0db8a5c3d1},{1461,0x9f979cd430590},{1461,0xa1a5e473ee344},{1461,0xadf52ff96f588},{1461,0xb917541848495},{1461,0xc7fab3baca474},{1461,0xca59387f3054d},{1461,0xd088c3bca25e6},{1461,0xd1d2ff74210a0},{1461,0xd6ef248b1e3e7},{1461,0xd9b286b7e5bd3},{1461,0xe43748a4ebd1d},{1461,0xe544fa7f7bbb3},{1461,0xeb25e9ea87d97},{1461,0xf43888695d259},{1461,0xfc88ff9e6703f},{1461,0xfe172695fca6c},
{1462,0x16d9c31c4da8d},{1462,0x1b6231e18c5ca},{1462,0x2087d4358fc82},{1462,0x2227501f7682b},{1462,0x22d12c0df0cf5},{1462,0x287e7e474956b},{1462,0x330340344f6b6},{1462,0x3767cd021ef4c},{1462,0x3bcc59cfee7e2},{1462,0x3f559aed56932},{1462,0x3fee0f647a7e9},{1462,0x4cbb48c0a9e29},{1462,0x53080c1d0faa3},{1462,0x541f9ad7c775b},{1462,0x58cd4f5354f2f},{1462,0x5ed1f039cebfe},{1462,0x785e78ac221ac},{1462,0x81f656a84b0ae},{1462,0x8abf7043ea1da},{1462,0x8cbcac3bc481b},{1462,0x95443230f0325},{1462,0x990021a012cee},{1462,0x9ec3410cfeafb},{1462,0x9f979cd430590},{1462,0xb6acf04e057b6},{1462,0xb917541848495},{1462,0xc7c3e372d37c0},{1462,0xc7fab3baca474},{1462,0xca59387f3054d},{1462,0xd0e96d1c46aa7},{1462,0xd6ef248b1e3e7},{1462,0xdf48e07446bd3},{1462,0xe544fa7f7bbb3},{1462,0xf320975fc16fe},{1462,0xfe172695fca6c},
{1463,0x766fe140f64},{1463,0xe7f56f236cba},{1463,0x16d9c31c4da8d},{1463,0x1b6231e18c5ca},{1463,0x2227501f7682b},{1463,0x22d12c0df0cf5},{1463,0x298c12d73c466},{1463,0x2a58f69d4c61d},{1463,0x3051d9d6a2c50},{1463,0x3767cd021ef4c},{1463,0x37d38937d14de},{1463,0x3f559aed56932},{1463,0x4495736b8d90e},{1463,0x4cbb48c0a9e29},{1463,0x541f9ad7c775b},{1463,0x5ed1f039cebfe},{1463,0x6d9f521bdf660},{1463,0x78214844bc889},{1463,0x785e78ac221ac},{1463,0x865ae3761a944},{1463,0x8abf7043ea1da},{1463,0x8cbcac3bc481b},{1463,0x934ae9d6511df},{1463,0x990021a012cee},{1463,0x9ec3410cfeafb},{1463,0xb569908a19ec7},{1463,0xb917541848495},{1463,0xbb5addccc2a7f},{1463,0xc2d43b93b0a8b},{1463,0xc7c3e372d37c0},{1463,0xc7fab3baca474},{1463,0xd0e96d1c46aa7},{1463,0xd213797470c2d},{1463,0xd4d10c79bb890},{1463,0xd54df9ea1633d},{1463,0xdf48e07446bd3},{1463,0xe544fa7f7bbb3},{1463,0xe97bc29ef4ada},{1463,0xfe172695fca6c},
{1464,0x11147fe608601},{1464,0x16d9c31c4da8d},{1464,0x1b6231e18c5ca},{1464,0x2509f38666074},{1464,0x2a58f69d4c61d},{1464,0x2e9eb3667fe20},{1464,0x3051d9d6a2c50},{1464,0x3767cd021ef4c},{1464,0x3b94901a9542e},{1464,0x4495736b8d90e},{1464,0x4cbb48c0a9e29},{1464,0x562de2778550f},{1464,0x5ed1f039cebfe},{1464,0x647769e8780fa},{1464,0x6d9f521bdf660},{1464,0x78199f2da3f2d},{1464,0x785e78ac221ac},{1464,0x8252000df7205},{1464,0x826efa4040852},{1464,0x8510c1c0397b1},{1464,0x865ae3761a944},{1464,0x8abf7043ea1da},{1464,0x8cbcac3bc481b},{1464,0x95bf026b52317},{1464,0x990021a012cee},{1464,0x9ec3410cfeafb},{1464,0xb569908a19ec7},{1464,0xb917541848495},{1464,0xd0e96d1c46aa7},{1464,0xd213797470c2d},{1464,0xd31bb3832e6f2},{1464,0xd4d10c79bb890},{1464,0xdb4316f3d2350},{1464,0xe9c0b46ed1f16},{1464,0xfc3cdd0f55da1},{1464,0xfe172695fca6c},
{1465,0xaf0f70def3b1},{1465,0x11147fe608601},{1465,0x1525ab8972cf2},{1465,0x1b6231e18c5ca},{1465,0x2509f38666074},{1465,0x274b032ed126d},{1465,0x2a58f69d4c61d},{1465,0x3767cd021ef4c},{1465,0x399a136906b97},{1465,0x4cbb48c0a9e29},{1465,0x5735cfed58276},{1465,0x5ed1f039cebfe},{1465,0x609dad85dbb27},{1465,0x647769e8780fa},{1465,0x689189fa4e1c6},{1465,0x6d9f521bdf660},{1465,0x78199f2da3f2d},{1465,0x7fc4104163463},{1465,0x8541c042a6b1f},{1465,0x865ae3761a944},{1465,0x8abf7043ea1da},{1465,0x8cbcac3bc481b},{1465,0x8d094722ba5b3},{1465,0x95bf026b52317},{1465,0x96390ed1a12b7},{1465,0x990021a012cee},{1465,0x9c82316493902},{1465,0xa37aa8ccc113b},{1465,0xb5f55e6f9a996},{1465,0xd0e96d1c46aa7},{1465,0xd31bb3832e6f2},{1465,0xd434d6b6a2517},{1465,0xe9c0b46ed1f16},{1465,0xefbf81ac2a000},{1465,0xfc3cdd0f55da1},{1465,0xfe172695fca6c},
{1466,0xaf0f70def3b1},{1466,0x1525ab8972cf2},{1466,0x1b6231e18c5ca},{1466,0x2509f38666074},{1466,0x274b032ed126d},{1466,0x2c199fccb92e7},{1466,0x399a136906b97},{1466,0x4481fe8a528da},{1466,0x4495736b8d90e},{1466,0x521f2caec47e8},{1466,0x5735cfed58276},{1466,0x573f1f834c84e},{1466,0x6d9f521bdf660},{1466,0x8541c042a6b1f},{1466,0x95bad04670f51},{1466,0x96390ed1a12b7},{1466,0x9c322c57ed8f4},{1466,0x9c82316493902},{1466,0xa10450b569cf4},{1466,0xa1396bd66a23d},{1466,0xa37aa8ccc113b},{1466,0xc041262558708},{1466,0xc2d43b93b0a8b},{1466,0xce96d8ed600ca},{1466,0xd0e96d1c46aa7},{1466,0xd532fe1ff5d20},{1466,0xd6671d1d8a162},{1466,0xd83e5053aa549},{1466,0xd85282cb7ae13},{1466,0xe6e02d2154595},{1466,0xefbf81ac2a000},
{1467,0x432e6da31db0},{1467,0xaf0f70def3b1},{1467,0x1525ab8972cf2},{1467,0x19c4a53c4e697},{1467,0x1b6231e18c5ca},{1467,0x2509f38666074},{1467,0x292103653c764},{1467,0x2ad7b1fdb56a3},{1467,0x2c199fccb92e7},{1467,0x2f38c37d8c101},{1467,0x41627ed2a91a9},{1467,0x4481fe8a528da},{1467,0x4495736b8d90e},{1467,0x503289990fb52},{1467,0x5735cfed58276},{1467,0x5d2ddd2d588c7},{1467,0x5f6de9d5d6b5b},{1467,0x6307221de7eb4},{1467,0x6dd1ac0372669},{1467,0x7a4660401fda8},{1467,0x8541c042a6b1f},{1467,0x8a79b4213a93a},{1467,0x95bad04670f51},{1467,0x96390ed1a12b7},{1467,0x9c322c57ed8f4},{1467,0x9c82316493902},{1467,0xa1396bd66a23d},{1467,0xa37aa8ccc113b},{1467,0xa913c563c4145},{1467,0xa972b60cc178c},{1467,0xab1596af76ae3},{1467,0xcb6bbd1b033eb},{1467,0xce96d8ed600ca},{1467,0xd532fe1ff5d20},{1467,0xd85282cb7ae13},{1467,0xefbf81ac2a000},{1467,0xf3d8c6c8a9d5b},{1467,0xf4fbd7f700270},{1467,0xf5b78eec2a651},{1467,0xfb2ec30626bdd},{1467,0xfc3af38a5a126},{1467,0xfdf0d92281ba0},
{1468,0xaf0f70def3b1},{1468,0xe488cfaf3517},{1468,0x111a3eb75ad06},{1468,0x1525ab8972cf2},{1468,0x1b6231e18c5ca},{1468,0x28cb8d336e4bc},{1468,0x292103653c764},{1468,0x2f38c37d8c101},{1468,0x44088ad226f94},{1468,0x4481fe8a528da},{1468,0x46a17b8df32db},{1468,0x503289990fb52},{1468,0x5735cfed58276},{1468,0x5f6de9d5d6b5b},{1468,0x6307221de7eb4},{1468,0x6dd1ac0372669},{1468,0x6e4c7067ff891},{1468,0x7257d50c3eb3d},{1468,0x8541c042a6b1f},{1468,0x95bad04670f51},{1468,0x96390ed1a12b7},{1468,0x9c322c57ed8f4},{1468,0xa1396bd66a23d},{1468,0xa37aa8ccc113b},{1468,0xa913c563c4145},{1468,0xa972b60cc178c},{1468,0xb09346b0ba19e},{1468,0xb40efd2c260d6},{1468,0xbb1d2c903faa6},{1468,0xca89194f89fcc},{1468,0xcb6bbd1b033eb},{1468,0xcf1396c333016},{1468,0xdf017f4cebb34},{1468,0xefbf81ac2a000},{1468,0xf5136822a1ee7},{1468,0xf5b78eec2a651},{1468,0xfdf0d92281ba0},
{1469,0xdc51c5cebf1},{1469,0xaf0f70def3b1},{1469,0xe488cfaf3517},{1469,0x1191c40b7f2f3},{1469,0x1525ab8972cf2},{1469,0x19c4a53c4e697},{1469,0x1b6231e18c5ca},{1469,0x292103653c764},{1469,0x2f38c37d8c101},{1469,0x395d8dad562e1},{1469,0x4350f08d39301},{1469,0x44088ad226f94},{1469,0x4481fe8a528da},{1469,0x503289990fb52},{1469,0x5387d67807724},{1469,0x5735cfed58276},{1469,0x5f6de9d5d6b5b},{1469,0x67c57c81c2f25},{1469,0x6b3faf38e6038},{1469,0x6dd1ac0372669},{1469,0x6ec1101532ae4},{1469,0x7e8ae2d7437e2},{1469,0x7eff45a9b20ee},{1469,0x8fa3102e215b4},{1469,0x95bad04670f51},{1469,0x9c322c57ed8f4},{1469,0xa1396bd66a23d},{1469,0xa6a6f7da759e3},{1469,0xb09346b0ba19e},{1469,0xb4bd99b713237},{1469,0xbdff81e5deac5},{1469,0xc152eb0cc30d0},{1469,0xcc07b6b70b348},{1469,0xcf1396c333016},{1469,0xf5136822a1ee7},{1469,0xfdf0d92281ba0},
{1470,0xf808033033d0},{1470,0x10c20303fe0f0},{1470,0x1191c40b7f2f3},{1470,0x1525ab8972cf2},{1470,0x19c4a53c4e697},{1470,0x1df42eac18bfb},{1470,0x292103653c764},{1470,0x3fff849da4ade},{1470,0x4350f08d39301},{1470,0x44088ad226f94},{1470,0x49d847305b26a},{1470,0x4bc830a51735c},{1470,0x503289990fb52},{1470,0x53e5696e902d5},{1470,0x5f6de9d5d6b5b},{1470,0x6035ce8b6203d},{1470,0x67c57c81c2f25},{1470,0x6dd1ac0372669},{1470,0x6ec1101532ae4},{1470,0x8c19e310fa138},{1470,0x8eb6b5dddab10},{1470,0x8fa3102e215b4},{1470,0x95bad04670f51},{1470,0x9c322c57ed8f4},{1470,0xaf5b5378aa2e5},{1470,0xbab0f41c748d3},{1470,0xbdaf295acc0d7},{1470,0xc152eb0cc30d0},{1470,0xcf1396c333016},{1470,0xd8d7f85027d12},{1470,0xe4245c0450434},{1470,0xf5136822a1ee7},
{1471,0x523643a025cb},{1471,0xf808033033d0},{1471,0x10c20303fe0f0},{1471,0x1191c40b7f2f3},{1471,0x19c4a53c4e697},{1471,0x1d9b73e724db3},{1471,0x22b8e298ae27f},{1471,0x2f7ef95ce6fae},{1471,0x32bb96bd07ae4},{1471,0x3caba046a110c},{1471,0x3fff849da4ade},{1471,0x4350f08d39301},{1471,0x44088ad226f94},{1471,0x47e85dbb9f178},{1471,0x49d847305b26a},{1471,0x4bc830a51735c},{1471,0x503289990fb52},{1471,0x51683d196b490},{1471,0x5f6de9d5d6b5b},{1471,0x60f7bc0eb4774},{1471,0x69a33eceb26e3},{1471,0x6ac6c7f0d827c},{1471,0x6feacce398883},{1471,0x76151a7991721},{1471,0x77124fd9d8b35},{1471,0x7d6d79931660e},{1471,0x8eb6b5dddab10},{1471,0x8fa3102e215b4},{1471,0x95c06aaf1f3a0},{1471,0x9c22f112ff436},{1471,0xa86ecb9faf723},{1471,0xaf5b5378aa2e5},{1471,0xbdaf295acc0d7},{1471,0xc152eb0cc30d0},{1471,0xcf1396c333016},{1471,0xd26fd7839982d},{1471,0xe59de80678e0e},{1471,0xeecbda0dbbd47},{1471,0xf5136822a1ee7},{1471,0xf9d39f9ad64cd},
{1472,0x523643a025cb},{1472,0x10c20303fe0f0},{1472,0x1191c40b7f2f3},{1472,0x1364a26262071},{1472,0x25ecf2fef54f2},{1472,0x2f892431cac49},{1472,0x3caba046a110c},{1472,0x4350f08d39301},{1472,0x44088ad226f94},{1472,0x49d847305b26a},{1472,0x5767a9617f908},{1472,0x5f6de9d5d6b5b},{1472,0x75dfde1674512},{1472,0x77124fd9d8b35},{1472,0x7a0740e4e55da},{1472,0x7d6d79931660e},{1472,0x8f52af79e2a6c},{1472,0x8fa3102e215b4},{1472,0x98eee0acb81c4},{1472,0x9ac64c8eddc62},{1472,0x9dad15f8d4355},{1472,0xaf5b5378aa2e5},{1472,0xb843422e3a84c},{1472,0xbdaf295acc0d7},{1472,0xc152eb0cc30d0},{1472,0xcf1396c333016},{1472,0xd5a3e7e9e0a9f},{1472,0xdabffd514f5f9},{1472,0xdb7bd6d5c451f},{1472,0xde56c9306364e},{1472,0xe27cbdbe4b8c1},{1472,0xe59de80678e0e},{1472,0xf9d39f9ad64cd},
{1473,0x7f9049fb8b94},{1473,0x10c20303fe0f0},{1473,0x1f84d2326700d},{1473,0x2b7e96079031c},{1473,0x36154cd1c405d},{1473,0x38b0c1afaae27},{1473,0x3caba046a110c},{1473,0x42ad6e6a66026},{1473,0x44088ad226f94},{1473,0x49d847305b26a},{1473,0x4db81a19d344e},{1473,0x4e8173af74d9d},{1473,0x5767a9617f908},{1473,0x5f6de9d5d6b5b},{1473,0x6035ce8b6203d},{1473,0x761744d424879},{1473,0x7a0740e4e55da},{1473,0x9dad15f8d4355},{1473,0x9f570179466a9},{1473,0xaf5b5378aa2e5},{1473,0xb843422e3a84c},{1473,0xbdaf295acc0d7},{1473,0xc152eb0cc30d0},{1473,0xcbea081cfd024},{1473,0xcf1396c333016},{1473,0xcf3bc71d525ba},{1473,0xdb7bd6d5c451f},{1473,0xe27cbdbe4b8c1},{1473,0xf2646355515d4},{1473,0xf9d39f9ad64cd},
{1474,0xdd7c077e5aa4},{1474,0x10c20303fe0f0},{1474,0x26f9dcfb22166},{1474,0x28e8a5e809eff},{1474,0x303f945aa155a},{1474,0x342f14b9f5c35},{1474,0x3caba046a110c},{1474,0x3d9d548713722},{1474,0x3f795e041edb4},{1474,0x42ad6e6a66026},{1474,0x48e05275fd1f1},{1474,0x49d847305b26a},{1474,0x4db81a19d344e},{1474,0x4e8173af74d9d},{1474,0x4ea0a613d62ea},{1474,0x4f6997d672f1e},{1474,0x5767a9617f908},{1474,0x5f6de9d5d6b5b},{1474,0x761744d424879},{1474,0x7a0740e4e55da},{1474,0x7f6275a78e902},{1474,0x8c7f4923ae4e4},{1474,0x9dad15f8d4355},{1474,0xa31eb430e84b6},{1474,0xa5211d20073f3},{1474,0xa8e9269594097},{1474,0xaf5b5378aa2e5},{1474,0xb7f45d0a33df7},{1474,0xb843422e3a84c},{1474,0xbdaf295acc0d7},{1474,0xcbea081cfd024},{1474,0xd3403cdbeedb9},{1474,0xd86bbc5e5e303},{1474,0xef3052ef0a361},{1474,0xf2646355515d4},{1474,0xf3284f61f052f},{1474,0xf9d39f9ad64cd},
{1475,0x525b81f7f741},{1475,0xdd7c077e5aa4},{1475,0xf08d8832e482},{1475,0xf94986012ea2},{1475,0x10c20303fe0f0},{1475,0x2c500dc03fb22},{1475,0x2fb1548bea1ed},{1475,0x342f14b9f5c35},{1475,0x3f30c32e50d37},{1475,0x463b290b22548},{1475,0x48e05275fd1f1},{1475,0x49d847305b26a},{1475,0x4ea0a613d62ea},{1475,0x4f6997d672f1e},{1475,0x4f73a3ecfac87},{1475,0x55236a9fc359a},{1475,0x5767a9617f908},{1475,0x59f05b9a732d3},{1475,0x5f6de9d5d6b5b},{1475,0x624c5c41ccb0b},{1475,0x6d79705015a53},{1475,0x6f682fbeb2a2e},{1475,0x761744d424879},{1475,0x7a0740e4e55da},{1475,0x8c7f4923ae4e4},{1475,0x9dad15f8d4355},{1475,0xa31eb430e84b6},{1475,0xa4abc0d809b19},{1475,0xa5211d20073f3},{1475,0xa8e9269594097},{1475,0xaf5b5378aa2e5},{1475,0xb7f45d0a33df7},{1475,0xb843422e3a84c},{1475,0xb8ec51c491e70},{1475,0xbdaf295acc0d7},{1475,0xca5dec33866de},{1475,0xcb0d72dc951ed},{1475,0xdc0702ab2b0d0},{1475,0xef3052ef0a361},{1475,0xf3284f61f052f},{1475,0xff2a98d7e6235},
{1476,0x363b98234fda},{1476,0x525b81f7f741},{1476,0xf08d8832e482},{1476,0xf8f9254cefee},{1476,0xf94986012ea2},{1476,0x10c20303fe0f0},{1476,0x134636a09dce0},{1476,0x2f7f181b42ee0},{1476,0x2fb1548bea1ed},{1476,0x3ab68b1d1d02f},{1476,0x3f30c32e50d37},{1476,0x48e05275fd1f1},{1476,0x49d847305b26a},{1476,0x4a3271a2abe39},{1476,0x4ea0a613d62ea},{1476,0x55236a9fc359a},{1476,0x59f05b9a732d3},{1476,0x5f6de9d5d6b5b},{1476,0x679555c2545ba},{1476,0x6c31d08af89c2},{1476,0x6d8ff79bc23e7},{1476,0x6d9b34f8e5a28},{1476,0x6f8654024a269},{1476,0x761744d424879},{1476,0x7a0740e4e55da},{1476,0x7f6275a78e902},{1476,0x9dad15f8d4355},{1476,0xa4abc0d809b19},{1476,0xaf4c4156de6c8},{1476,0xaf5b5378aa2e5},{1476,0xb050dfd902fc1},{1476,0xb843422e3a84c},{1476,0xbbf5fed9fc469},{1476,0xbd98e77929881},{1476,0xbdc41968680cd},{1476,0xbf46873fba59b},{1476,0xc344f0a29594e},{1476,0xc45e4e1bb0962},{1476,0xcb0d72dc951ed},{1476,0xcf45d333da323},{1476,0xd33d6552128bc},{1476,0xd610b1d24bd0f},{1476,0xee866d99f1381},{1476,0xef3052ef0a361},{1476,0xf3284f61f052f},{1476,0xfcecd9bcc18ef},
{1477,0x363b98234fda},{1477,0x525b81f7f741},{1477,0x10c20303fe0f0},{1477,0x134636a09dce0},{1477,0x1f89d83daaec1},{1477,0x24cf7146aba91},{1477,0x2f7f181b42ee0},{1477,0x2fb1548bea1ed},{1477,0x377ebe1552da4},{1477,0x3f30c32e50d37},{1477,0x49d847305b26a},{1477,0x4a3271a2abe39},{1477,0x4ea0a613d62ea},{1477,0x55236a9fc359a},{1477,0x5f6de9d5d6b5b},{1477,0x679555c2545ba},{1477,0x6a90288fd7529},{1477,0x6c31d08af89c2},{1477,0x6d9b34f8e5a28},{1477,0x6f8654024a269},{1477,0x70ce4b539cdca},{1477,0x761744d424879},{1477,0x7e7a6e4b5c702},{1477,0x7f6275a78e902},{1477,0x8e8ad64136d93},{1477,0x8f57b58526921},{1477,0x8f70d3bd7a2a7},{1477,0x9dad15f8d4355},{1477,0xab6e9aab9a5e1},{1477,0xaf5b5378aa2e5},{1477,0xb050dfd902fc1},{1477,0xb15d024c9863a},{1477,0xb843422e3a84c},{1477,0xbdc41968680cd},{1477,0xbf46873fba59b},{1477,0xc45e4e1bb0962},{1477,0xcf45d333da323},{1477,0xd1bc979d79a78},{1477,0xd610b1d24bd0f},{1477,0xdf3b131172342},{1477,0xe735b3003e352},{1477,0xea8a7adde1709},{1477,0xee866d99f1381},{1477,0xef3052ef0a361},
{1478,0x363b98234fda},{1478,0x525b81f7f741},{1478,0xb898313938a0},{1478,0x10c20303fe0f0},{1478,0x1f89d83daaec1},{1478,0x2784782c76ed1},{1478,0x2fb1548bea1ed},{1478,0x377ebe1552da4},{1478,0x3f30c32e50d37},{1478,0x49d847305b26a},{1478,0x4a3271a2abe39},{1478,0x55236a9fc359a},{1478,0x5f6de9d5d6b5b},{1478,0x6a90288fd7529},{1478,0x6c31d08af89c2},{1478,0x7e7a6e4b5c702},{1478,0x834036762ddea},{1478,0x875d15965a911},{1478,0xa351ce6b0a756},{1478,0xab6e9aab9a5e1},{1478,0xaf5b5378aa2e5},{1478,0xb050dfd902fc1},{1478,0xb843422e3a84c},{1478,0xbdc41968680cd},{1478,0xbf50935642304},{1478,0xcf45d333da323},{1478,0xd14d7bdd567ca},{1478,0xd1bc979d79a78},{1478,0xd42dba342df68},{1478,0xdf3b131172342},{1478,0xe735b3003e352},{1478,0xe7f228b6910ee},{1478,0xef3052ef0a361},{1478,0xf49cf3420f7c4},{1478,0xfd0dc48573a98},{1478,0xfe55637039477},{1478,0xff2592cca2380},
{1479,0x363b98234fda},{1479,0x525b81f7f741},{1479,0x567ef4b72bed},{1479,0x10c20303fe0f0},{1479,0x132a095ce492f},{1479,0x14db6803aaed6},{1479,0x1acab99cc7b03},{1479,0x2fb1548bea1ed},{1479,0x3bdda9cf46131},{1479,0x3f30c32e50d37},{1479,0x537376ea02be9},{1479,0x6a90288fd7529},{1479,0x6c31d08af89c2},{1479,0x7e7a6e4b5c702},{1479,0x7f7b93dfe2288},{1479,0x82af7b2306c5a},{1479,0x834036762ddea},{1479,0x875d15965a911},{1479,0x98e537f3761ac},{1479,0x9cbf0e0b56dc7},{1479,0xb050dfd902fc1},{1479,0xb843422e3a84c},{1479,0xbdc41968680cd},{1479,0xcf45d333da323},{1479,0xd7407322a6333},{1479,0xdf3b131172342},{1479,0xe735b3003e352},{1479,0xebb5b34f940d1},{1479,0xef3052ef0a361},{1479,0xf49cf3420f7c4},{1479,0xf72af2ddd6371},{1479,0xfd0dc48573a98},{1479,0xff2592cca2380},
{1480,0x363b98234fda},{1480,0x525b81f7f741},{1480,0x64d014273504},{1480,0xd8fa8d64b03d},{1480,0xff838de23922},{1480,0x10c20303fe0f0},{1480,0x49b8bf13826a5},{1480,0x6a90288fd7529},{1480,0x6c31d08af89c2},{1480,0x6d58ef3d21ac4},{1480,0x6d6846402ea7d},{1480,0x7e7a6e4b5c702},{1480,0x7f7b93dfe2288},{1480,0x82af7b2306c5a},{1480,0x834036762ddea},{1480,0x875d15965a911},{1480,0x98e537f3761ac},{1480,0x9cbf0e0b56dc7},{1480,0xaedc3bf8e3d2c},{1480,0xb050dfd902fc1},{1480,0xbdc41968680cd},{1480,0xcd6dad5b72365},{1480,0xcf45d333da323},{1480,0xdaa88359d7172},{1480,0xdf3b131172342},{1480,0xe189906290013},{1480,0xe735b3003e352},{1480,0xef3052ef0a361},{1480,0xf49cf3420f7c4},{1480,0xfd0dc48573a98},
{1481,0x95412b350f3},{1481,0x363b98234fda},{1481,0x525b81f7f741},{1481,0x64d014273504},{1481,0x10c20303fe0f0},{1481,0x16f29d54e3e08},{1481,0x2369cec4e28a8},{1481,0x499c37aa28b86},{1481,0x49b8bf13826a5},{1481,0x591ffabd8c683},{1481,0x6a90288fd7529},{1481,0x6c31d08af89c2},{1481,0x6cc55fe40d243},{1481,0x6d6846402ea7d},{1481,0x715ebf91e8a0b},{1481,0x7a62adeb449c7},{1481,0x7bb9214427e24},{1481,0x7e7a6e4b5c702},{1481,0x834036762ddea},{1481,0x84a5ab955c24b},{1481,0x98e537f3761ac},{1481,0xb050dfd902fc1},{1481,0xcd6dad5b72365},{1481,0xcf45d333da323},{1481,0xe6023f41d4ffc},{1481,0xe735b3003e352},{1481,0xf4301aab5429c},{1481,0xf49cf3420f7c4},{1481,0xf688340e382b2},{1481,0xfd0dc48573a98},
{1482,0x10c20303fe0f0},{1482,0x13bbc37726905},{1482,0x212db7c228832},{1482,0x563c4871ef7d3},{1482,0x57ab56dd6d3ee},{1482,0x591ffabd8c683},{1482,0x666e37102b4b8},{1482,0x6c31d08af89c2},{1482,0x6d6846402ea7d},{1482,0x715ebf91e8a0b},{1482,0x73e57a15b9a22},{1482,0x834036762ddea},{1482,0x8ae555821bffb},{1482,0x8d52c5fb5eabb},{1482,0x9b29f816db2ee},{1482,0xa909ac78672d8},{1482,0xb050dfd902fc1},{1482,0xb3976efce12bd},{1482,0xc3dc1191a05b0},{1482,0xcf01bbacaab11},{1482,0xcf45d333da323},{1482,0xe5e18865d5bee},{1482,0xe735b3003e352},{1482,0xedb2e6d5c92f7},{1482,0xf49cf3420f7c4},{1482,0xf688340e382b2},{1482,0xfd0dc48573a98},
{1483,0x10c20303fe0f0},{1483,0x1875a0d9030df},{1483,0x2efc2c0ff0479},{1483,0x3d8886a766a20},{1483,0x563c4871ef7d3},{1483,0x57f48bb41db7b},{1483,0x656da65162a6e},{1483,0x666e37102b4b8},{1483,0x6a4f0a4acf350},{1483,0x6c31d08af89c2},{1483,0x6d6846402ea7d},{1483,0x74d736c32c951},{1483,0x8ae555821bffb},{1483,0x8dda496be58b6},{1483,0x9b29f816db2ee},{1483,0xa909ac78672d8},{1483,0xadf1aea12525a},{1483,0xae4c4c979c6ef},{1483,0xb050dfd902fc1},{1483,0xb23e56c698b7f},{1483,0xc4a759fa6b6f8},{1483,0xcf01bbacaab11},{1483,0xd95c1d5ee9f2a},{1483,0xe3b67f1129343},{1483,0xe4725cc8ed25b},{1483,0xe5e18865d5bee},{1483,0xe708a717fecf0},{1483,0xe735b3003e352},{1483,0xf72af2ddd6371},
{1484,0x3d3db15fa8c5},{1484,0xc123cbd09fd2},{1484,0x31584e3b4ad9b},{1484,0x3d8886a766a20},{1484,0x54f0e30343c54},{1484,0x656da65162a6e},{1484,0x666e37102b4b8},{1484,0x6c31d08af89c2},{1484,0x6c593f5f20e87},{1484,0x6d6846402ea7d},{1484,0x7da147d60a19a},{1484,0x843d4f9c441a9},{1484,0x87a1b50b8604c},{1484,0x8a9dbe81afe4d},{1484,0x8ae555821bffb},{1484,0x9b3dd3316e694},{1484,0xa10bb630ca6ec},{1484,0xa909ac78672d8},{1484,0xa99d3bd17bb59},{1484,0xae4c4c979c6ef},{1484,0xae7b358f31bb5},{1484,0xb23e56c698b7f},{1484,0xc370f75c67012},{1484,0xcf01bbacaab11},{1484,0xd95c1d5ee9f2a},{1484,0xe4725cc8ed25b},{1484,0xe735b3003e352},{1484,0xe9ea73d565775},{1484,0xf76eb49619a6e},
{1485,0x3d3db15fa8c5},{1485,0xe53cc32c28e6},{1485,0x118195ffe74a2},{1485,0x206dc54eb8aa7},{1485,0x389e10ab149a1},{1485,0x3d8886a766a20},{1485,0x5d2f44aa53361},{1485,0x5e1ed1deb36cb},{1485,0x5f23316457bd6},{1485,0x666e37102b4b8},{1485,0x6c31d08af89c2},{1485,0x6d6846402ea7d},{1485,0x6d73d46f5f933},{1485,0x7fa9b781d0b32},{1485,0x843d4f9c441a9},{1485,0x8ae555821bffb},{1485,0x9855b0c1f6992},{1485,0x9b3dd3316e694},{1485,0xa909ac78672d8},{1485,0xae4c4c979c6ef},{1485,0xae7b358f31bb5},{1485,0xb23e56c698b7f},{1485,0xb26b7d6b24276},{1485,0xb68aae3eabdfc},{1485,0xb7abd9258492b},{1485,0xbec90fe5bb509},{1485,0xc370f75c67012},{1485,0xcf01bbacaab11},{1485,0xdd4cb39c92c38},{1485,0xe4725cc8ed25b},{1485,0xe735b3003e352},{1485,0xe9ea73d565775},
{1486,0x3d3db15fa8c5},{1486,0xe53cc32c28e6},{1486,0x14509e64196df},{1486,0x206dc54eb8aa7},{1486,0x2206bb670ea2c},{1486,0x3d8886a766a20},{1486,0x3ed9b3456ff32},{1486,0x3f3bc4dcc52e8},{1486,0x48ba279040c6c},{1486,0x54c8cfb2187bd},{1486,0x54f0e30343c54},{1486,0x5d2f44aa53361},{1486,0x5f23316457bd6},{1486,0x666e37102b4b8},{1486,0x6c31d08af89c2},{1486,0x6d73d46f5f933},{1486,0x8ffbb2e6be4ef},{1486,0x9b3dd3316e694},{1486,0xa909ac78672d8},{1486,0xadf1aea12525a},{1486,0xae7b358f31bb5},{1486,0xb23e56c698b7f},{1486,0xb26b7d6b24276},{1486,0xb7abd9258492b},{1486,0xbec90fe5bb509},{1486,0xc370f75c67012},{1486,0xce0f1af738dc3},{1486,0xcf01bbacaab11},{1486,0xdd4cb39c92c38},{1486,0xe4725cc8ed25b},{1486,0xe9ea73d565775},{1486,0xfad59e9aa16f3},{1486,0xff695484e5a7e},
{1487,0x3d3db15fa8c5},{1487,0xe53cc32c28e6},{1487,0x17ac59b4cf613},{1487,0x2206bb670ea2c},{1487,0x3d8886a766a20},{1487,0x3ed9b3456ff32},{1487,0x4094f665b3301},{1487,0x4321571bd3b46},{1487,0x47bb900cff233},{1487,0x48b697ed116d8},{1487,0x54c8cfb2187bd},{1487,0x54f0e30343c54},{1487,0x5585c1e83447a},{1487,0x5d2f44aa53361},{1487,0x666e37102b4b8},{1487,0x698cd724ea5f4},{1487,0x783378cd0080f},{1487,0x7c451e8bf30c9},{1487,0x7f47b7304dba9},{1487,0x87cd610abbaeb},{1487,0x91e545af61967},{1487,0x9989edd081452},{1487,0x9b3dd3316e694},{1487,0xa909ac78672d8},{1487,0xaa2d1bc414b69},{1487,0xae7b358f31bb5},{1487,0xb23e56c698b7f},{1487,0xb26b7d6b24276},{1487,0xb7abd9258492b},{1487,0xbec90fe5bb509},{1487,0xc370f75c67012},{1487,0xcf01bbacaab11},{1487,0xdd0999cb8ca00},{1487,0xe0d0a34469ffc},{1487,0xe1b2d6b0c456b},{1487,0xe9ea73d565775},{1487,0xed8ff6ab4f3e6},{1487,0xefa3fdb1c74a7},{1487,0xfad59e9aa16f3},{1487,0xff695484e5a7e},
{1488,0xe53cc32c28e6},{1488,0x1ae94947d8ead},{1488,0x1b3281aff2a4e},{1488,0x1f866cc890d79},{1488,0x282da4a2ab9ea},{1488,0x2a52c6a2db4c9},{1488,0x3d8886a766a20},{1488,0x4054eee19d2b3},{1488,0x4094f665b3301},{1488,0x45d09e105b1d8},{1488,0x47bb900cff233},{1488,0x48b697ed116d8},{1488,0x4a2fba96d21d6},{1488,0x54c8cfb2187bd},{1488,0x54f0e30343c54},{1488,0x5585c1e83447a},{1488,0x5f004f4764d40},{1488,0x7023bd86c7cea},{1488,0x783378cd0080f},{1488,0x7fb3b49941daf},{1488,0x87cd610abbaeb},{1488,0x91e545af61967},{1488,0x9989edd081452},{1488,0x9b3dd3316e694},{1488,0xa6599407d37de},{1488,0xb07380ae0623c},{1488,0xb23e56c698b7f},{1488,0xb26b7d6b24276},{1488,0xb7abd9258492b},{1488,0xc8d0c98b37780},{1488,0xcab2531b9a080},{1488,0xcf01bbacaab11},{1488,0xd876a56931b59},{1488,0xe9ea73d565775},{1488,0xed8ff6ab4f3e6},{1488,0xeda167b9c8b31},{1488,0xefa3fdb1c74a7},{1488,0xf1585b9e2beed},{1488,0xf468406584b89},{1488,0xf8c64366f2665},
{1489,0xcb70d24b7378},{1489,0xe53cc32c28e6},{1489,0xfc36b80bc6b7},{1489,0x1fee01f9dec20},{1489,0x282da4a2ab9ea},{1489,0x3eeebac481e6a},{1489,0x4054eee19d2b3},{1489,0x4fdabe3f83328},{1489,0x54c8cfb2187bd},{1489,0x5585c1e83447a},{1489,0x5f004f4764d40},{1489,0x60dbc9399671e},{1489,0x62b7432bc80fc},{1489,0x643027b771105},{1489,0x6c830fa72e4b3},{1489,0x6ddc1ed8f1c30},{1489,0x748deb444b4e9},{1489,0x931293b712d35},{1489,0x99ca5a719767e},{1489,0x9f2c07a4b3c74},{1489,0xa6476e74f74db},{1489,0xa8c6e7a6f971f},{1489,0xaa2d1bc414b69},{1489,0xb7abd9258492b},{1489,0xc9ca24051c3fe},{1489,0xc9f4c559915e2},{1489,0xcf01bbacaab11},{1489,0xd3a7eb6ba5ee9},{1489,0xed8ff6ab4f3e6},{1489,0xeda167b9c8b31},{1489,0xefa3fdb1c74a7},{1489,0xf468406584b89},{1489,0xf71c5ed2a2fe8},{1489,0xf8c64366f2665},
{1490,0xab5be61d3c34},{1490,0xcb70d24b7378},{1490,0xe53cc32c28e6},{1490,0xfc36b80bc6b7},{1490,0x1cf9c513f54fd},{1490,0x24d23c932ad4f},{1490,0x3eeebac481e6a},{1490,0x4484b6ee21084},{1490,0x492d09b36070d},{1490,0x4f7058f3934d9},{1490,0x4fdabe3f83328},{1490,0x52b04013dbbd1},{1490,0x54c8cfb2187bd},{1490,0x5b495b6301984},{1490,0x60985bde681c4},{1490,0x60dbc9399671e},{1490,0x748deb444b4e9},{1490,0x84f70bfc2f9b4},{1490,0x99ca5a719767e},{1490,0x9bafc6df6336d},{1490,0xaa2d1bc414b69},{1490,0xb8272cb0b26e0},{1490,0xc9ca24051c3fe},{1490,0xd640570040a13},{1490,0xe1a5f48eb69c8},{1490,0xe6337ff1023b9},{1490,0xea67ab2fce5ef},{1490,0xed8ff6ab4f3e6},{1490,0xeda167b9c8b31},{1490,0xefa3fdb1c74a7},{1490,0xf468406584b89},{1490,0xf71c5ed2a2fe8},{1490,0xfda206d4d7f86},
{1491,0x94f8a44b87ea},{1491,0xc1bf27eef07d},{1491,0xe53cc32c28e6},{1491,0xfc36b80bc6b7},{1491,0x1cf9c513f54fd},{1491,0x24d23c932ad4f},{1491,0x4484b6ee21084},{1491,0x4fdabe3f83328},{1491,0x52b04013dbbd1},{1491,0x55b999300fd12},{1491,0x5b495b6301984},{1491,0x60dbc9399671e},{1491,0x61ff221bef4e1},{1491,0x6492bd1df9ada},{1491,0x748deb444b4e9},{1491,0x75fdc06050007},{1491,0x7df1e16f08e66},{1491,0x8c9d3e7c57c6c},{1491,0x8f60b336e3819},{1491,0x99ca5a719767e},{1491,0x9bafc6df6336d},{1491,0xaa2d1bc414b69},{1491,0xabda5d58858d6},{1491,0xc10df90521e61},{1491,0xc22ae9daf8b6d},{1491,0xc44999f56bc84},{1491,0xe1a5f48eb69c8},{1491,0xed8ff6ab4f3e6},{1491,0xeda167b9c8b31},{1491,0xef7ce1abfa50f},{1491,0xf468406584b89},{1491,0xf9e8ca7535303},{1491,0xfda206d4d7f86},
{1492,0x94f8a44b87ea},{1492,0xfc36b80bc6b7},{1492,0x174d9367c92c9},{1492,0x1a021b7cf0e9d},{1492,0x1cf9c513f54fd},{1492,0x24d23c932ad4f},{1492,0x2e19a12758d53},{1492,0x38e14a6306e5d},{1492,0x4622d6d0e5ba6},{1492,0x52b04013dbbd1},{1492,0x58b7bd87c14dd},{1492,0x5b495b6301984},{1492,0x5fee0c407da2f},{1492,0x60b041403078e},{1492,0x60dbc9399671e},{1492,0x748deb444b4e9},{1492,0x7df1e16f08e66},{1492,0x824722e4c75fd},{1492,0x8c9d3e7c57c6c},{1492,0x8eaa6975a2604},{1492,0x8f60b336e3819},{1492,0x99ca5a719767e},{1492,0x9bafc6df6336d},{1492,0xabda5d58858d6},{1492,0xb5c0ec0d2c126},{1492,0xb73b5adcc03f6},{1492,0xbc7fe63247a1b},{1492,0xc082bf70ee3fa},{1492,0xc10df90521e61},{1492,0xd17b5e159445f},{1492,0xdc2124e374a33},{1492,0xe1a5f48eb69c8},{1492,0xed8ff6ab4f3e6},{1492,0xef7ce1abfa50f},{1492,0xf468406584b89},{1492,0xf9e83ebe8733b},
{1493,0x37b84c6f05c8},{1493,0x94f8a44b87ea},{1493,0xab5be61d3c34},{1493,0xfc36b80bc6b7},{1493,0x151cc58ddcf14},{1493,0x1cf9c513f54fd},{1493,0x23f3a667b9b55},{1493,0x24d23c932ad4f},{1493,0x254b9c8ad9da8},{1493,0x2aed87bb7e1ad},{1493,0x4d632dfa48b41},{1493,0x52b04013dbbd1},{1493,0x5b495b6301984},{1493,0x5fee0c407da2f},{1493,0x60dbc9399671e},{1493,0x709f64cb2858b},{1493,0x7df1e16f08e66},{1493,0x80a66db7e8952},{1493,0x86395c9b76d4d},{1493,0x8798132311af6},{1493,0x8eaa6975a2604},{1493,0x8f60b336e3819},{1493,0x9176d1afd8e97},{1493,0x95e4a31085c70},{1493,0x99ca5a719767e},{1493,0x99d966be1a7c6},{1493,0xa3de04895e46c},{1493,0xa7b576f63bf9f},{1493,0xb5c0ec0d2c126},{1493,0xb73b5adcc03f6},{1493,0xc10df90521e61},{1493,0xcaab6f5802568},{1493,0xcdda9e971ae77},{1493,0xd157d90e17511},{1493,0xd1a8715c3da86},{1493,0xdc2124e374a33},{1493,0xdf9c3403c6736},{1493,0xe1a5f48eb69c8},{1493,0xed8ff6ab4f3e6},{1493,0xef7ce1abfa50f},{1493,0xf7d738a4d7882},
{1494,0x94f8a44b87ea},{1494,0xfc36b80bc6b7},{1494,0x151cc58ddcf14},{1494,0x1c4008b409cf2},{1494,0x1ccb52683b56a},{1494,0x23f3a667b9b55},{1494,0x24d23c932ad4f},{1494,0x254b9c8ad9da8},{1494,0x255d63510ae79},{1494,0x2a3b5181d4246},{1494,0x5b495b6301984},{1494,0x5d5b6fd1d84df},{1494,0x5e96d325e70a7},{1494,0x7280cfb66dcdb},{1494,0x7b137ed45a557},{1494,0x8378c88cc83b8},{1494,0x83d1c19b5cce7},{1494,0x86395c9b76d4d},{1494,0x8798132311af6},{1494,0x9176d1afd8e97},{1494,0x95c39c48cc643},{1494,0x95e4a31085c70},{1494,0x96f229462193e},{1494,0xa3de04895e46c},{1494,0xa7b576f63bf9f},{1494,0xa810e0bdf123a},{1494,0xb5c0ec0d2c126},{1494,0xb73b5adcc03f6},{1494,0xc10df90521e61},{1494,0xc3b4aeb4b4dd6},{1494,0xcaab6f5802568},{1494,0xcdda9e971ae77},{1494,0xce8b70d3e0c7e},{1494,0xd1a8715c3da86},{1494,0xdc2124e374a33},{1494,0xde09944cbff54},{1494,0xdf9c3403c6736},{1494,0xe69615578ad8e},{1494,0xe71555e5e2c21},{1494,0xed8ff6ab4f3e6},{1494,0xef7ce1abfa50f},{1494,0xefc48e1b6db87},{1494,0xf7d738a4d7882},{1494,0xfb83b952d8096},{1494,0xff9342673848d},
{1495,0x94f8a44b87ea},{1495,0x151cc58ddcf14},{1495,0x1aae0039635d2},{1495,0x1ccb52683b56a},{1495,0x1fca746d7ca7e},{1495,0x23f3a667b9b55},{1495,0x27777f7f049a2},{1495,0x2a3b5181d4246},{1495,0x3ae6836706b51},{1495,0x3c04b8059dd59},{1495,0x3c0a56e59e777},{1495,0x5462328bd10b0},{1495,0x5d5b6fd1d84df},{1495,0x5e96d325e70a7},{1495,0x6ffe1ec7801b6},{1495,0x7280cfb66dcdb},{1495,0x7b137ed45a557},{1495,0x7eb2279e12c66},{1495,0x8378c88cc83b8},{1495,0x83d1c19b5cce7},{1495,0x8a4b65574c46b},{1495,0x95c39c48cc643},{1495,0x99c7645dc7d9e},{1495,0xa008df6a4d3ec},{1495,0xb2d0d3b7e8d25},{1495,0xb5c0ec0d2c126},{1495,0xc2d49895f9bfb},{1495,0xcdda9e971ae77},{1495,0xd1a8715c3da86},{1495,0xd8a252b0020de},{1495,0xdc2124e374a33},{1495,0xde09944cbff54},{1495,0xdf9c3403c6736},{1495,0xe69615578ad8e},{1495,0xea1306016d0ba},{1495,0xed8ff6ab4f3e6},{1495,0xef7ce1abfa50f},{1495,0xefc48e1b6db87},{1495,0xf414c4f76d0e1},{1495,0xf489d7ff13a3e},{1495,0xfb83b952d8096},{1495,0xff9342673848d},
{1496,0x94f8a44b87ea},{1496,0x1fca746d7ca7e},{1496,0x23f3a667b9b55},{1496,0x25b21ebcaaceb},{1496,0x27777f7f049a2},{1496,0x3ae6836706b51},{1496,0x3c04b8059dd59},{1496,0x3c0a56e59e777},{1496,0x4d632dfa48b41},{1496,0x5462328bd10b0},{1496,0x5787c9510b24c},{1496,0x5c5f528e3a8c7},{1496,0x5d5b6fd1d84df},{1496,0x5e96d325e70a7},{1496,0x6bed7d8c4ca34},{1496,0x6ffe1ec7801b6},{1496,0x7eb2279e12c66},{1496,0x846090ff10ce4},{1496,0x8ccaaef214995},{1496,0x92df856a5616e},{1496,0x95c39c48cc643},{1496,0x99c7645dc7d9e},{1496,0x9a58603b2470b},{1496,0xa3de04895e46c},{1496,0xb0012141dcd8b},{1496,0xb28f5e8dbf6c0},{1496,0xb2d0d3b7e8d25},{1496,0xb5c0ec0d2c126},{1496,0xb6a75940accb7},{1496,0xcdda9e971ae77},{1496,0xd8a252b0020de},{1496,0xdc1f4359e440a},{1496,0xdc2124e374a33},{1496,0xdf9c3403c6736},{1496,0xdfb2c6768b122},{1496,0xe31924ada8a62},{1496,0xe69615578ad8e},{1496,0xe8548dac7bf24},{1496,0xea1306016d0ba},{1496,0xed8ff6ab4f3e6},{1496,0xef7ce1abfa50f},{1496,0xf10ce75531712},{1496,0xf489d7ff13a3e},{1496,0xfb5dcbd4a738c},{1496,0xfb83b952d8096},
{1497,0x24d2e29232420},{1497,0x27777f7f049a2},{1497,0x3ae6836706b51},{1497,0x3cd6e78b5572c},{1497,0x3d9461a3a5e2e},{1497,0x3f7fa46807df7},{1497,0x4d1cb824aa1fe},{1497,0x5d5b6fd1d84df},{1497,0x5e96d325e70a7},{1497,0x6027d80c0ed72},{1497,0x660aaacc2dbd3},{1497,0x68e6f997356dd},{1497,0x6bed7d8c4ca34},{1497,0x7eb2279e12c66},{1497,0x9147259d707ec},{1497,0x95c39c48cc643},{1497,0x9759a46ff7cf8},{1497,0x9ac8aecee58d0},{1497,0xa3de04895e46c},{1497,0xadf94a7ab96aa},{1497,0xb28f5e8dbf6c0},{1497,0xb5c0ec0d2c126},{1497,0xb6a75940accb7},{1497,0xbd07f9b95cff9},{1497,0xc7319f5e97102},{1497,0xcdda9e971ae77},{1497,0xd8a252b0020de},{1497,0xe15aac58b78cc},{1497,0xe2e11d89ef5cf},{1497,0xe31924ada8a62},{1497,0xe4d79d0299bf8},{1497,0xe69615578ad8e},{1497,0xe775518203659},{1497,0xe8548dac7bf24},{1497,0xea1306016d0ba},{1497,0xebd17e565e250},{1497,0xed8ff6ab4f3e6},{1497,0xfb5dcbd4a738c},{1497,0xfb83b952d8096},
{1498,0xac55aa1bbae4},{1498,0x1f059db68e14c},{1498,0x24d2e29232420},{1498,0x27777f7f049a2},{1498,0x2eaf6b0891456},{1498,0x3ae6836706b51},{1498,0x3cd6e78b5572c},{1498,0x3e3086c433316},{1498,0x42c5e0499a133},{1498,0x4d1cb824aa1fe},{1498,0x5d5b6fd1d84df},{1498,0x660aaacc2dbd3},{1498,0x68e6f997356dd},{1498,0x6bed7d8c4ca34},{1498,0x6c7f4c940d861},{1498,0x77b3230c8a6f6},{1498,0x79283c0ff858e},{1498,0x7eb2279e12c66},{1498,0x7f554af000e90},{1498,0x9147259d707ec},{1498,0x95c39c48cc643},{1498,0xa45038bbc114a},{1498,0xa7c262a5982df},{1498,0xbd07f9b95cff9},{1498,0xbe1be4d1f42b3},{1498,0xc7319f5e97102},{1498,0xcfe9f9074c8f0},{1498,0xd4714676d6067},{1498,0xd8a252b0020de},{1498,0xdc32e2c7021c2},{1498,0xde5eb1859777f},{1498,0xe15aac58b78cc},{1498,0xe4d79d0299bf8},{1498,0xe5b6d92d124c3},{1498,0xe69615578ad8e},{1498,0xe775518203659},{1498,0xe8548dac7bf24},{1498,0xe933c9d6f47ef},{1498,0xea1306016d0ba},{1498,0xeaf2422be5985},{1498,0xf2cb5faa228a8},{1498,0xf7062e577c812},{1498,0xf7d9d8eaf36ea},{1498,0xfb83b952d8096},
{1499,0x1faac0a20762},{1499,0x5d70cc017660},{1499,0x66ac2d5daec3},{1499,0xac55aa1bbae4},{1499,0x1a31aa5cbb717},{1499,0x1f059db68e14c},{1499,0x2eaf6b0891456},{1499,0x3621e6561b942},{1499,0x3ae6836706b51},{1499,0x4d1cb824aa1fe},{1499,0x5a45054beff11},{1499,0x5b2fa11342f22},{1499,0x660aaacc2dbd3},{1499,0x68e6f997356dd},{1499,0x68fc142c3d304},{1499,0x6c7f4c940d861},{1499,0x77b3230c8a6f6},{1499,0x78b67870359a4},{1499,0x7eb2279e12c66},{1499,0x88503f705a7d5},{1499,0x89a02440c8625},{1499,0x95c39c48cc643},{1499,0xa45038bbc114a},{1499,0xaf34ddf3227cb},{1499,0xbadc2afac7a3c},{1499,0xcfe9f9074c8f0},{1499,0xd8a252b0020de},{1499,0xd90e90532ed5c},{1499,0xdcfe7f845ccd5},{1499,0xde5eb1859777f},{1499,0xe15aac58b78cc},{1499,0xe5b6d92d124c3},{1499,0xe69615578ad8e},{1499,0xe775518203659},{1499,0xe8548dac7bf24},{1499,0xe933c9d6f47ef},{1499,0xea1306016d0ba},{1499,0xee6f32d5c7cb1},{1499,0xf2cb5faa228a8},{1499,0xf7278c7e7d49f},{1499,0xfb83b952d8096},
{1500,0x1faac0a20762},{1500,0xac55aa1bbae4},{1500,0x1f059db68e14c},{1500,0x2182f7d91ea58},{1500,0x29e0a76f78dfd},{1500,0x2eaf6b0891456},{1500,0x3268a8af566cc},{1500,0x3d1a9f64e8837},{1500,0x5a45054beff11},{1500,0x658b0fdcfa484},{1500,0x660aaacc2dbd3},{1500,0x68e6f997356dd},{1500,0x6db3e4a6d19dc},{1500,0x952140cd24edb},{1500,0x95c39c48cc643},{1500,0x9cc7294c6d351},{1500,0x9e944f6d6409d},{1500,0xa234ae28e29a9},{1500,0xa45038bbc114a},{1500,0xaf34ddf3227cb},{1500,0xba1d18e186d1d},{1500,0xcfe9f9074c8f0},{1500,0xd00b946fef019},{1500,0xd1ca4d0864968},{1500,0xd2990c0559abd},{1500,0xde5eb1859777f},{1500,0xe15aac58b78cc},{1500,0xe5b6d92d124c3},{1500,0xe775518203659},{1500,0xe8548dac7bf24},{1500,0xea1306016d0ba},{1500,0xee6f32d5c7cb1},{1500,0xf3e53b3e4623c},{1500,0xf48f7c9bc4cb9},{1500,0xfb83b952d8096},{1500,0xfc73b333f1e6a},
{1501,0xac55aa1bbae4},{1501,0x1862f8d5ef83d},{1501,0x2182f7d91ea58},{1501,0x27381b309649c},{1501,0x2e101e8dbb4c2},{1501,0x2eaf6b0891456},{1501,0x3268a8af566cc},{1501,0x3d1a9f64e8837},{1501,0x5b7ba421a9c6d},{1501,0x658b0fdcfa484},{1501,0x6db3e4a6d19dc},{1501,0x8dbca8753ffdb},{1501,0x8e835895fb577},{1501,0x952140cd24edb},{1501,0x9cc7294c6d351},{1501,0x9e944f6d6409d},{1501,0xa234ae28e29a9},{1501,0xad583f1fbfe90},{1501,0xaf34ddf3227cb},{1501,0xb2e7985c5db2e},{1501,0xc049afd73d094},{1501,0xcfe9f9074c8f0},{1501,0xd1ca4d0864968},{1501,0xd2990c0559abd},{1501,0xde5eb1859777f},{1501,0xe5b6d92d124c3},{1501,0xe679e5c8ba7cc},{1501,0xe775518203659},{1501,0xea1306016d0ba},{1501,0xf3e53b3e4623c},{1501,0xf48f7c9bc4cb9},{1501,0xfb83b952d8096},{1501,0xfc73b333f1e6a},
{1502,0x2182f7d91ea58},{1502,0x2e101e8dbb4c2},{1502,0x2eaf6b0891456},{1502,0x2f6b714745212},{1502,0x414d9f4a6b0a4},{1502,0x4a7b40921fb4b},{1502,0x5b7ba421a9c6d},{1502,0x656ba3ed14409},{1502,0x658b0fdcfa484},{1502,0x6cd4a87c59111},{1502,0x6db3e4a6d19dc},{1502,0x8e835895fb577},{1502,0x9baaae72af6f6},{1502,0x9cc7294c6d351},{1502,0xad583f1fbfe90},{1502,0xaf34ddf3227cb},{1502,0xb2e7985c5db2e},{1502,0xb3dd26693f4cc},{1502,0xcf5430ae6a40a},{1502,0xd1ca4d0864968},{1502,0xd2990c0559abd},{1502,0xd97fad50ea380},{1502,0xde5eb1859777f},{1502,0xe5b6d92d124c3},{1502,0xead00a57f4a72},{1502,0xed2f908380504},{1502,0xed69325cc4af5},{1502,0xf3e53b3e4623c},{1502,0xfb83b952d8096},{1502,0xfc6ed97e5829b},{1502,0xfc73b333f1e6a},
{1503,0x5bf1a058f8f0},{1503,0xebd0f212de43},{1503,0x1080f1d827bcd},{1503,0x145ba1fc6a8d9},{1503,0x14c99adcbcc65},{1503,0x1d741e017b235},{1503,0x1dc78ff85b1b8},{1503,0x263bec069b881},{1503,0x2f6b714745212},{1503,0x30639023fc738},{1503,0x3c30039d95826},{1503,0x414d9f4a6b0a4},{1503,0x4a7b40921fb4b},{1503,0x4f822537118a2},{1503,0x5b7ba421a9c6d},{1503,0x5ed6797f0cb09},{1503,0x641c4ed3a3923},{1503,0x658b0fdcfa484},{1503,0x6cd4a87c59111},{1503,0x6db3e4a6d19dc},{1503,0x710621fcbbdc3},{1503,0x809adf27d4dbd},{1503,0x8e835895fb577},{1503,0x9baaae72af6f6},{1503,0x9f855e96f2402},{1503,0xaf34ddf3227cb},{1503,0xb3dd26693f4cc},{1503,0xd2990c0559abd},{1503,0xd97fad50ea380},{1503,0xe5b6d92d124c3},{1503,0xe9d4bb261d668},{1503,0xead00a57f4a72},{1503,0xec082d50fa7af},{1503,0xed69325cc4af5},{1503,0xf3e53b3e4623c},{1503,0xfb7ba9dcecbb0},{1503,0xfb83b952d8096},{1503,0xfc73b333f1e6a},
{1504,0x1f1e34654040},{1504,0x5bf1a058f8f0},{1504,0x1080f1d827bcd},{1504,0x12c21ca5ca9e1},{1504,0x2f6b714745212},{1504,0x30639023fc738},{1504,0x4a7b40921fb4b},{1504,0x51248e4b70cbd},{1504,0x5b7ba421a9c6d},{1504,0x5ed6797f0cb09},{1504,0x658b0fdcfa484},{1504,0x710621fcbbdc3},{1504,0x780695036a679},{1504,0x799426312a1f2},{1504,0x7d07f9c786e85},{1504,0x889ea70857568},{1504,0x969a51a0251ea},{1504,0xaf34ddf3227cb},{1504,0xb6ba7dbd8a02f},{1504,0xbc8285f3ee3c1},{1504,0xc9ac636b115d2},{1504,0xe31f106b57930},{1504,0xe5b6d92d124c3},{1504,0xe9d4bb261d668},{1504,0xeaab707d7620f},{1504,0xead00a57f4a72},{1504,0xeb8225d4cedb6},{1504,0xfb83b952d8096},{1504,0xfc73b333f1e6a},
{1505,0x5bf1a058f8f0},{1505,0x12c21ca5ca9e1},{1505,0x2f6b714745212},{1505,0x33851c529c8cd},{1505,0x34628f64b7d23},{1505,0x38245fafc63b6},{1505,0x4a7b40921fb4b},{1505,0x51248e4b70cbd},{1505,0x594aaf6750088},{1505,0x5b7ba421a9c6d},{1505,0x5ed6797f0cb09},{1505,0x658b0fdcfa484},{1505,0x6681bbe60afc7},{1505,0x710621fcbbdc3},{1505,0x780695036a679},{1505,0x799426312a1f2},{1505,0x7d07f9c786e85},{1505,0x802cb61f49a44},{1505,0x8f86fff116f99},{1505,0x96c27a9f84c6a},{1505,0xaf34ddf3227cb},{1505,0xb6ba7dbd8a02f},{1505,0xbb03ecb28e02e},{1505,0xbc8285f3ee3c1},{1505,0xc192bac57a718},{1505,0xe5b6d92d124c3},{1505,0xeaab707d7620f},{1505,0xead00a57f4a72},{1505,0xeb8225d4cedb6},{1505,0xf67cd4ade633f},{1505,0xfb83b952d8096},{1505,0xfc73b333f1e6a},
{1506,0x1a0f5e016bccb},{1506,0x1bd2e42f1b4a6},{1506,0x221c667797f36},{1506,0x2919ded899041},{1506,0x2cd210cf8852e},{1506,0x2f6b714745212},{1506,0x33851c529c8cd},{1506,0x34628f64b7d23},{1506,0x38245fafc63b6},{1506,0x387d38c9935f2},{1506,0x4376ae900423f},{1506,0x472ee086f372c},{1506,0x51248e4b70cbd},{1506,0x52459f27ac348},{1506,0x53188eb8327e7},{1506,0x5639615e20aa1},{1506,0x59828c630da0e},{1506,0x5fad2ed6656b0},{1506,0x710621fcbbdc3},{1506,0x780695036a679},{1506,0x7d07f9c786e85},{1506,0x802cb61f49a44},{1506,0x8482f169ff40b},{1506,0x8eab32c3e638a},{1506,0x8f86fff116f99},{1506,0xa4c0f4fe4168c},{1506,0xaf34ddf3227cb},{1506,0xb57e603b9f25b},{1506,0xc192bac57a718},{1506,0xd9dfb6f7c84d6},{1506,0xde3d05c6fb552},{1506,0xeaab707d7620f},{1506,0xeb8225d4cedb6},{1506,0xf5ea2a7840237},
{1507,0x881f5eb286ca},{1507,0x1bd2e42f1b4a6},{1507,0x258b65dd19b15},{1507,0x2f6b714745212},{1507,0x33851c529c8cd},{1507,0x38245fafc63b6},{1507,0x387d38c9935f2},{1507,0x3b75e113c5f74},{1507,0x472ee086f372c},{1507,0x51248e4b70cbd},{1507,0x52459f27ac348},{1507,0x53188eb8327e7},{1507,0x61f4c7aae765e},{1507,0x6810443fdcb36},{1507,0x780695036a679},{1507,0x7d07f9c786e85},{1507,0x802cb61f49a44},{1507,0x8358e3e3a8502},{1507,0x8f86fff116f99},{1507,0xa597aa559a233},{1507,0xb57e603b9f25b},{1507,0xc192bac57a718},{1507,0xc82794adbd8ca},{1507,0xccb14f1c12bd7},{1507,0xcd47aa7bead34},{1507,0xce8d68178a64d},{1507,0xd58387e1e474f},{1507,0xd9dfb6f7c84d6},{1507,0xdbbbcff33ff4c},{1507,0xeaab707d7620f},{1507,0xeac650ca6d2c2},{1507,0xeb8225d4cedb6},{1507,0xfe03d31dd70f1},
{1508,0x6d0571e883e8},{1508,0x178290ad228ec},{1508,0x19e4af4bba2bc},{1508,0x33851c529c8cd},{1508,0x38245fafc63b6},{1508,0x3b75e113c5f74},{1508,0x4282f5b4142e9},{1508,0x472ee086f372c},{1508,0x4ec8fd70420c7},{1508,0x51248e4b70cbd},{1508,0x6d835abb05ce6},{1508,0x780695036a679},{1508,0x7d07f9c786e85},{1508,0x802cb61f49a44},{1508,0x8358e3e3a8502},{1508,0x89f017d183181},{1508,0x8f86fff116f99},{1508,0x908b74e3ebe81},{1508,0x9883bfc1f76e3},{1508,0xa9c9350a55c76},{1508,0xaa8322daf2d52},{1508,0xae9c4d6db84ec},{1508,0xb605e68838683},{1508,0xc192bac57a718},{1508,0xcb7c6fa6f4942},{1508,0xd58387e1e474f},{1508,0xdbbbcff33ff4c},{1508,0xe6e81782cd345},{1508,0xe93da9c5d57ce},{1508,0xeaab707d7620f},{1508,0xeb8225d4cedb6},{1508,0xf9d0d1a19a637},{1508,0xfdeae3c906d84},{1508,0xfe03d31dd70f1},
{1509,0x444244d7cab},{1509,0x18ea74578544},{1509,0xb020fb627725},{1509,0x178290ad228ec},{1509,0x1a40839cfc202},{1509,0x21231c19271ae},{1509,0x26575375639f6},{1509,0x38245fafc63b6},{1509,0x418bf1e207406},{1509,0x4282f5b4142e9},{1509,0x4ec8fd70420c7},{1509,0x51248e4b70cbd},{1509,0x58bc2f1f2768d},{1509,0x5cc90371f2dea},{1509,0x6367c939d63a0},{1509,0x6d835abb05ce6},{1509,0x701b6b0903b00},{1509,0x780695036a679},{1509,0x8066636743b00},{1509,0x8d3699eab4e09},{1509,0x8f86fff116f99},{1509,0x98fa98a8b04f7},{1509,0xaa8322daf2d52},{1509,0xb605e68838683},{1509,0xb710c0cdbe4ff},{1509,0xbeeca3a85a233},{1509,0xd058ab82d7449},{1509,0xd58387e1e474f},{1509,0xd9dfb6f7c84d6},{1509,0xe6e81782cd345},{1509,0xe93da9c5d57ce},{1509,0xeaab707d7620f},{1509,0xeb8225d4cedb6},{1509,0xee7e82c15c7af},{1509,0xf9d0d1a19a637},{1509,0xfbf062076d206},{1509,0xfdeae3c906d84},{1509,0xfe03d31dd70f1},
{1510,0x444244d7cab},{1510,0x13f9b99bd7acb},{1510,0x1a40839cfc202},{1510,0x21231c19271ae},{1510,0x26575375639f6},{1510,0x2d53854d423bc},{1510,0x38245fafc63b6},{1510,0x418bf1e207406},{1510,0x4282f5b4142e9},{1510,0x4ec8fd70420c7},{1510,0x50a28679907d3},{1510,0x51248e4b70cbd},{1510,0x6367c939d63a0},{1510,0x64e2ac1789ca4},{1510,0x6db72f1ea050d},{1510,0x701b6b0903b00},{1510,0x73f5071d6f087},{1510,0x880898f9e5778},{1510,0x8d3699eab4e09},{1510,0x98fa98a8b04f7},{1510,0xa3a2f950baf58},{1510,0xa3cb730b344f1},{1510,0xaf6cd5714ab1c},{1510,0xb5e2f86026f04},{1510,0xb605e68838683},{1510,0xba0f58b6c10a7},{1510,0xcaa5ad6f92516},{1510,0xd058ab82d7449},{1510,0xd58387e1e474f},{1510,0xd9dfb6f7c84d6},{1510,0xdd820e0026b2c},{1510,0xde93f413c3a19},{1510,0xe42f1cdc92642},{1510,0xea06da0ee5120},{1510,0xeb8225d4cedb6},{1510,0xf280af3ee070e},{1510,0xfbf062076d206},{1510,0xfe03d31dd70f1},
{1511,0x250d6020f319},{1511,0x1a40839cfc202},{1511,0x1b7eb61c2851d},{1511,0x28223b3d9de31},{1511,0x2d53854d423bc},{1511,0x2e4c7e9676891},{1511,0x2f00d5e81e403},{1511,0x2f6a461f7b7f4},{1511,0x38245fafc63b6},{1511,0x418bf1e207406},{1511,0x4282f5b4142e9},{1511,0x4ec8fd70420c7},{1511,0x4f2d9594c9d70},{1511,0x51248e4b70cbd},{1511,0x605ddb1ea8b6b},{1511,0x7f52950ca6e6d},{1511,0x8223aed5f0991},{1511,0x8d62f7537c646},{1511,0x97a135634f02f},{1511,0x98fa98a8b04f7},{1511,0xa3a2f950baf58},{1511,0xa3cb730b344f1},{1511,0xb605e68838683},{1511,0xba0f58b6c10a7},{1511,0xcaa5ad6f92516},{1511,0xcece225667594},{1511,0xcf905112fe369},{1511,0xd58387e1e474f},{1511,0xdd820e0026b2c},{1511,0xe42f1cdc92642},{1511,0xe4c379e9dfb6a},{1511,0xf3b943ee1dfde},{1511,0xf5d0ae56cecee},{1511,0xf7d4d2fac58f2},{1511,0xfbf062076d206},
{1512,0x250d6020f319},{1512,0xd21b06493313},{1512,0x1a40839cfc202},{1512,0x1b7eb61c2851d},{1512,0x28223b3d9de31},{1512,0x2d53854d423bc},{1512,0x2e4c7e9676891},{1512,0x2f6a461f7b7f4},{1512,0x38c1e5ce19376},{1512,0x3d7ed728eb3bb},{1512,0x4282f5b4142e9},{1512,0x49a627543f49c},{1512,0x4da5b7555fc08},{1512,0x605ddb1ea8b6b},{1512,0x6f6b8dc863188},{1512,0x7229328f5778a},{1512,0x7d095517f5f9b},{1512,0x8223aed5f0991},{1512,0x8379410316ca5},{1512,0x861aec719ec83},{1512,0x8f2ca741a0218},{1512,0xa3a2f950baf58},{1512,0xa3cb730b344f1},{1512,0xa7d5a047bf15b},{1512,0xb519c817175b2},{1512,0xc3fd47f3e359a},{1512,0xc61c341a86617},{1512,0xcaa5ad6f92516},{1512,0xcece225667594},{1512,0xcf905112fe369},{1512,0xd07bb81cc71f6},{1512,0xdccb92c3c2112},{1512,0xf3b943ee1dfde},{1512,0xf5d0ae56cecee},{1512,0xf7d4d2fac58f2},{1512,0xfbf062076d206},
{1513,0x1b7eb61c2851d},{1513,0x28223b3d9de31},{1513,0x2d53854d423bc},{1513,0x2f6a461f7b7f4},{1513,0x485774e8347bb},{1513,0x4c44059a0f25c},{1513,0x4f6ae9f3ef4be},{1513,0x587691b7e3c02},{1513,0x67ad25da09bda},{1513,0x7229328f5778a},{1513,0x78a866a092cab},{1513,0x861aec719ec83},{1513,0x906aa78b912cb},{1513,0x93941aaa32fe4},{1513,0x9bf30d17379cc},{1513,0xa3a2f950baf58},{1513,0xa3cb730b344f1},{1513,0xa8d9fff47767d},{1513,0xa9236a5272c28},{1513,0xb4ff02c50e83e},{1513,0xb519c817175b2},{1513,0xc6f3721e293c9},{1513,0xcf905112fe369},{1513,0xd07bb81cc71f6},{1513,0xdccb92c3c2112},{1513,0xdf2f78aed827a},{1513,0xe8bf9f58e579b},{1513,0xef20545e84de0},{1513,0xf1c3939db2ca3},{1513,0xf2eb4a9e0751d},{1513,0xf3b943ee1dfde},{1513,0xf646a23185055},{1513,0xf7d4d2fac58f2},{1513,0xf9e29a811957c},
{1514,0x106da80bb9581},{1514,0x1812e7e685ab1},{1514,0x184aa87b4c05b},{1514,0x1b7eb61c2851d},{1514,0x28223b3d9de31},{1514,0x2f6a461f7b7f4},{1514,0x3844bccf34b5a},{1514,0x4c44059a0f25c},{1514,0x545aa8036e993},{1514,0x587691b7e3c02},{1514,0x6e9d20ff39240},{1514,0x70f2a81045fcf},{1514,0x78a866a092cab},{1514,0x861aec719ec83},{1514,0x8735005d17d1d},{1514,0x906aa78b912cb},{1514,0x93941aaa32fe4},{1514,0x98da3b8941d53},{1514,0xb2e47a386db9b},{1514,0xb61be2304c7b2},{1514,0xb87551e652e46},{1514,0xb90c1071f0dfc},{1514,0xcf905112fe369},{1514,0xdc7eeb38013ce},{1514,0xdccb92c3c2112},{1514,0xe2eb79a2419df},{1514,0xef20545e84de0},{1514,0xf1c3939db2ca3},{1514,0xf3b943ee1dfde},{1514,0xf7d4d2fac58f2},{1514,0xf8dbb6bdef737},{1514,0xfdfe298dc0e90},
{1515,0x6ded857b0cb},{1515,0x91238bec71d},{1515,0xa6562841692c},{1515,0x106da80bb9581},{1515,0x1b7eb61c2851d},{1515,0x2f6a461f7b7f4},{1515,0x300fd32dbeda3},{1515,0x4fb766b1520eb},{1515,0x50be4a747bf30},{1515,0x5159db3ca011d},{1515,0x545aa8036e993},{1515,0x55ba43d76721b},{1515,0x587691b7e3c02},{1515,0x77dadf69f79a9},{1515,0x78a866a092cab},{1515,0x7b64b4810f692},{1515,0x861aec719ec83},{1515,0x8e6376f8908c6},{1515,0x93941aaa32fe4},{1515,0xa10f252ab7b0a},{1515,0xb61be2304c7b2},{1515,0xc05b43808ba9b},{1515,0xcf905112fe369},{1515,0xd61c8604c047c},{1515,0xd67d51aa642e2},{1515,0xd93de55a9fea4},{1515,0xdccb92c3c2112},{1515,0xdf4816c835dd1},{1515,0xe9745e4e7b12c},{1515,0xf3b943ee1dfde},{1515,0xf485516e7577e},{1515,0xf498f01f7e1af},{1515,0xf7d4d2fac58f2},{1515,0xf8dbb6bdef737},{1515,0xfdfe298dc0e90},
{1516,0x91238bec71d},{1516,0xa6562841692c},{1516,0x106da80bb9581},{1516,0x1b7eb61c2851d},{1516,0x2c12bfbffa9a9},{1516,0x2c4ffda8ace18},{1516,0x2d9bac2c3f878},{1516,0x2f6a461f7b7f4},{1516,0x3844bccf34b5a},{1516,0x3d1b86f3058f7},{1516,0x4fb766b1520eb},{1516,0x5159db3ca011d},{1516,0x545aa8036e993},{1516,0x587691b7e3c02},{1516,0x59bacee22d15c},{1516,0x77dadf69f79a9},{1516,0x78a866a092cab},{1516,0x82c366121de38},{1516,0x861aec719ec83},{1516,0x8e6376f8908c6},{1516,0x906aa78b912cb},{1516,0x93941aaa32fe4},{1516,0xa4498eb7a0c11},{1516,0xc05b43808ba9b},{1516,0xc6b995d45ff81},{1516,0xd4671b36cf107},{1516,0xd67d51aa642e2},{1516,0xd93de55a9fea4},{1516,0xd97e1e7132b58},{1516,0xdccb92c3c2112},{1516,0xdf4816c835dd1},{1516,0xe9745e4e7b12c},{1516,0xef2b41c4e1914},{1516,0xf485516e7577e},{1516,0xf8dbb6bdef737},
{1517,0x91238bec71d},{1517,0xa6562841692c},{1517,0xe07ecd40a61d},{1517,0x19ab667677cea},{1517,0x267536715499d},{1517,0x2c12bfbffa9a9},{1517,0x2f6a461f7b7f4},{1517,0x3844bccf34b5a},{1517,0x4186e49254aeb},{1517,0x442443bad8795},{1517,0x4a94f3e180992},{1517,0x4fb766b1520eb},{1517,0x5159db3ca011d},{1517,0x545aa8036e993},{1517,0x59bacee22d15c},{1517,0x655f62947aad7},{1517,0x77dadf69f79a9},{1517,0x82c366121de38},{1517,0x861aec719ec83},{1517,0x8655ec0301e30},{1517,0x8f9813c621dc2},{1517,0x906aa78b912cb},{1517,0xa4498eb7a0c11},{1517,0xa7862c2ca7b71},{1517,0xbb605308b9224},{1517,0xc05b43808ba9b},{1517,0xc6b995d45ff81},{1517,0xce92a2bac81a4},{1517,0xd4671b36cf107},{1517,0xd67d51aa642e2},{1517,0xd7fdb80dcb71d},{1517,0xdccb92c3c2112},{1517,0xdf4816c835dd1},{1517,0xe9745e4e7b12c},{1517,0xef2b41c4e1914},{1517,0xf485516e7577e},{1517,0xf8dbb6bdef737},
{1518,0x91238bec71d},{1518,0xa6562841692c},{1518,0xe07ecd40a61d},{1518,0x13a78a47368bd},{1518,0x173c77c352018},{1518,0x3844bccf34b5a},{1518,0x401fe5fcfff6b},{1518,0x4556a82165f45},{1518,0x4a94f3e180992},{1518,0x4cfebb251c377},{1518,0x4fb766b1520eb},{1518,0x5159db3ca011d},{1518,0x545aa8036e993},{1518,0x5d1881343491c},{1518,0x5dff91926809f},{1518,0x61b8b97b03b94},{1518,0x655f62947aad7},{1518,0x77dadf69f79a9},{1518,0x7a007ab47967e},{1518,0x7ca857bb602f5},{1518,0x8655ec0301e30},{1518,0x8f9813c621dc2},{1518,0x9003804aa396b},{1518,0x9799ae0ec67c9},{1518,0xa4498eb7a0c11},{1518,0xafc9e8aed0e6a},{1518,0xc05b43808ba9b},{1518,0xc6b995d45ff81},{1518,0xce92a2bac81a4},{1518,0xd67d51aa642e2},{1518,0xdf4816c835dd1},{1518,0xf485516e7577e},{1518,0xf8dbb6bdef737},{1518,0xfddb17e29e141},
{1519,0xc6cc2e52c168},{1519,0xe07ecd40a61d},{1519,0xf88533771a58},{1519,0x2fb0e4085539d},{1519,0x40e907bca333a},{1519,0x4556a82165f45},{1519,0x4c44725537ace},{1519,0x4cfebb251c377},{1519,0x5b69a80b30d3c},{1519,0x5dff91926809f},{1519,0x655f62947aad7},{1519,0x6aed387e2fd24},{1519,0x7763fd12d819e},{1519,0x7a007ab47967e},{1519,0x7ca857bb602f5},{1519,0x817f21df31093},{1519,0x8655ec0301e30},{1519,0x8b2cb626d2bce},{1519,0x9799ae0ec67c9},{1519,0x9b0fea58e964d},{1519,0xa4498eb7a0c11},{1519,0xad0c3d2188b1c},{1519,0xafc9e8aed0e6a},{1519,0xcd5d25362c6d9},{1519,0xce92a2bac81a4},{1519,0xcefb51b95fdbb},{1519,0xe921198cb6924},{1519,0xee07b8cc5b241},{1519,0xee4a5460e9c58},{1519,0xf485516e7577e},{1519,0xf8dbb6bdef737},{1519,0xfb124b803e0c4},{1519,0xfddb17e29e141},
{1520,0xc6cc2e52c168},{1520,0xe07ecd40a61d},{1520,0x2046e9c13d81b},{1520,0x210b37788a722},{1520,0x238abe794d33d},{1520,0x2861889d1e0da},{1520,0x3d241617a71ce},{1520,0x4cfebb251c377},{1520,0x5c41149fb2b2c},{1520,0x5dff91926809f},{1520,0x655f62947aad7},{1520,0x6aed387e2fd24},{1520,0x7302d270eae9d},{1520,0x7ca857bb602f5},{1520,0x8655ec0301e30},{1520,0x8b2cb626d2bce},{1520,0x9799ae0ec67c9},{1520,0x9ea3d42d4ef38},{1520,0xa4498eb7a0c11},{1520,0xa56ce983dd25c},{1520,0xb7d5273ce7dd8},{1520,0xbf83d6ec09cab},{1520,0xce92a2bac81a4},{1520,0xcefb51b95fdbb},{1520,0xdd702287b1343},{1520,0xe921198cb6924},{1520,0xee4a5460e9c58},{1520,0xf37e18b7aa532},{1520,0xf485516e7577e},
{1521,0x59daf06f7abd},{1521,0xc6cc2e52c168},{1521,0x1edc686e2fcdd},{1521,0x210b37788a722},{1521,0x2b34f0038b3d2},{1521,0x3829a6ee0f597},{1521,0x40804d8a1d7bf},{1521,0x4cfebb251c377},{1521,0x575bba500ff85},{1521,0x5bd55e5571c34},{1521,0x5dff91926809f},{1521,0x67e1aa7e6aeb0},{1521,0x7302d270eae9d},{1521,0x7935d2547cae9},{1521,0x7ca857bb602f5},{1521,0x85db5c69379b9},{1521,0x8655ec0301e30},{1521,0x9799ae0ec67c9},{1521,0x9db7da0d0c9f1},{1521,0xa56ce983dd25c},{1521,0xba26e7d9c4a79},{1521,0xbf83d6ec09cab},{1521,0xce92a2bac81a4},{1521,0xdb982e472c8b5},{1521,0xdd702287b1343},{1521,0xe921198cb6924},{1521,0xedf7e3b0876c1},{1521,0xf37e18b7aa532},{1521,0xf485516e7577e},{1521,0xf709b52f7d9fb},
{1522,0x871a35db3c7e},{1522,0xb58cbc638f29},{1522,0xc6cc2e52c168},{1522,0xe9bacf35bd96},{1522,0xfda97f385652},{1522,0x1e474917c374d},{1522,0x1edc686e2fcdd},{1522,0x3829a6ee0f597},{1522,0x40804d8a1d7bf},{1522,0x48ef9d6f8d5bd},{1522,0x575bba500ff85},{1522,0x5c279d51e3611},{1522,0x5dff91926809f},{1522,0x67e1aa7e6aeb0},{1522,0x6ed8d32988edb},{1522,0x7935d2547cae9},{1522,0x8256e7a7a9122},{1522,0x9799ae0ec67c9},{1522,0x9db7da0d0c9f1},{1522,0xb5501db5f3cdb},{1522,0xb659f5861380e},{1522,0xbd93fe4a5ee9a},{1522,0xbf4dfbc6e952f},{1522,0xc7293c73a605d},{1522,0xc751b19f220e2},{1522,0xce92a2bac81a4},{1522,0xd1a400b33d9ce},{1522,0xdace030005e9d},{1522,0xdb982e472c8b5},{1522,0xdd702287b1343},{1522,0xe2910cb573f80},{1522,0xe921198cb6924},{1522,0xedf7e3b0876c1},{1522,0xf709b52f7d9fb},
{1523,0x9d2cded8106d},{1523,0xb58cbc638f29},{1523,0x1edc686e2fcdd},{1523,0x238abe794d33d},{1523,0x31b4aff7f21b6},{1523,0x342e8766970ad},{1523,0x3fdea17697030},{1523,0x40804d8a1d7bf},{1523,0x575bba500ff85},{1523,0x5bf04be801ff2},{1523,0x5dff91926809f},{1523,0x67e1aa7e6aeb0},{1523,0x74647726f5136},{1523,0x7ddbb5cfba548},{1523,0x947fdd81a6caa},{1523,0x9799ae0ec67c9},{1523,0x9db7da0d0c9f1},{1523,0xa07bc86dd39c6},{1523,0xb5501db5f3cdb},{1523,0xbd93fe4a5ee9a},{1523,0xc7293c73a605d},{1523,0xc751b19f220e2},{1523,0xce92a2bac81a4},{1523,0xd1a400b33d9ce},{1523,0xd2606904953ef},{1523,0xd53cfc578e206},{1523,0xdd702287b1343},{1523,0xedf7e3b0876c1},{1523,0xfb04d4b6f5ee5},{1523,0xfc682d78a5a07},{1523,0xfd4c46c5037ec},
{1524,0x76411f26a379},{1524,0x9d2cded8106d},{1524,0xacde6a98eb4b},{1524,0x31b4aff7f21b6},{1524,0x3fdea17697030},{1524,0x40804d8a1d7bf},{1524,0x448835240109e},{1524,0x5bf04be801ff2},{1524,0x5df937f03c22d},{1524,0x632dd4f9aa8bc},{1524,0x65e41abaaec3b},{1524,0x67e1aa7e6aeb0},{1524,0x81ac585597dc2},{1524,0x9799ae0ec67c9},{1524,0x98fc3ab8a9fe8},{1524,0x9db7da0d0c9f1},{1524,0xa07bc86dd39c6},{1524,0xbd93fe4a5ee9a},{1524,0xbed07b872eae7},{1524,0xbf5b72903170e},{1524,0xc37a0f3498b55},{1524,0xc94f4162de357},{1524,0xce92a2bac81a4},{1524,0xd1a400b33d9ce},{1524,0xdd702287b1343},{1524,0xdfcdf231e2848},{1524,0xfc5766b42f4dc},{1524,0xfd4c46c5037ec},
{1525,0x12f133b38279},{1525,0x76411f26a379},{1525,0xacde6a98eb4b},{1525,0xecf34093b79c},{1525,0x13e04050dba27},{1525,0x25a71a19d6185},{1525,0x296135ae87315},{1525,0x31b4aff7f21b6},{1525,0x448835240109e},{1525,0x5df937f03c22d},{1525,0x632dd4f9aa8bc},{1525,0x668a0c6c20ead},{1525,0x7c03c18f35aba},{1525,0x81ac585597dc2},{1525,0x86b058efcf88f},{1525,0x9799ae0ec67c9},{1525,0x98fc3ab8a9fe8},{1525,0xa07bc86dd39c6},{1525,0xa9a82c846abc8},{1525,0xb07477b8d2590},{1525,0xbd93fe4a5ee9a},{1525,0xbf5b72903170e},{1525,0xd1a400b33d9ce},{1525,0xdd702287b1343},{1525,0xe6cc4fb6018ed},{1525,0xe96bd62b0f7de},{1525,0xeb9b183c55c52},{1525,0xf11105e44929c},{1525,0xfc5766b42f4dc},
{1526,0x50385f71a420},{1526,0xacde6a98eb4b},{1526,0xf15348dacb89},{1526,0x13e04050dba27},{1526,0x25461db6b8d44},{1526,0x25a71a19d6185},{1526,0x296135ae87315},{1526,0x31b4aff7f21b6},{1526,0x3313b3d1f9ca2},{1526,0x3fdea17697030},{1526,0x55bcf72fd10f8},{1526,0x562722aa824cf},{1526,0x59b08426c4fbc},{1526,0x5df937f03c22d},{1526,0x6218955e1a9dd},{1526,0x668a0c6c20ead},{1526,0x69b457d8d2e3a},{1526,0x81ac585597dc2},{1526,0x8708279e4bc5a},{1526,0x8e3fc4fe84a40},{1526,0x8fd649d43cc3c},{1526,0x910be7daf3a6d},{1526,0x9799ae0ec67c9},{1526,0xa9a82c846abc8},{1526,0xbd93fe4a5ee9a},{1526,0xc246322eb320f},{1526,0xd1a400b33d9ce},{1526,0xdfcdf231e2848},{1526,0xe8ca3185deb71},{1526,0xe96bd62b0f7de},{1526,0xeb9b183c55c52},{1526,0xf11105e44929c},{1526,0xf11e7cad9147b},{1526,0xf6d86fe3332fb},{1526,0xf99fd4e2107d4},
{1527,0x1ef33fd3f7c3},{1527,0xacde6a98eb4b},{1527,0xcd59b3cd417e},{1527,0xf15348dacb89},{1527,0x13e04050dba27},{1527,0x17e2cd47c422a},{1527,0x38abf98ad7cfc},{1527,0x3fdea17697030},{1527,0x4dece742412dc},{1527,0x55bcf72fd10f8},{1527,0x562722aa824cf},{1527,0x59b08426c4fbc},{1527,0x5df937f03c22d},{1527,0x668a0c6c20ead},{1527,0x67da75a569e36},{1527,0x6dae6e3e2e6bf},{1527,0x74cb15920ddb9},{1527,0x81ac585597dc2},{1527,0x8e3fc4fe84a40},{1527,0x8fd649d43cc3c},{1527,0x95aa426d014c5},{1527,0x9799ae0ec67c9},{1527,0xa0ac07b6136a5},{1527,0xa9a82c846abc8},{1527,0xb305df468118b},{1527,0xbda6169bd42cb},{1527,0xd1a400b33d9ce},{1527,0xd97664edbbe9a},{1527,0xe1753d94807e9},{1527,0xe8ca3185deb71},{1527,0xe96bd62b0f7de},{1527,0xf11105e44929c},{1527,0xf6d86fe3332fb},{1527,0xf93342f950eae},{1527,0xfb3fc4df2a34d},
{1528,0x1ef33fd3f7c3},{1528,0x3e4e3305ab27},{1528,0x490aa8bfd081},{1528,0xacde6a98eb4b},{1528,0xcd59b3cd417e},{1528,0x13e04050dba27},{1528,0x17e2cd47c422a},{1528,0x1c3b351e19f4f},{1528,0x246ccec94f52a},{1528,0x2be0b75f2d92d},{1528,0x36aed8cd94437},{1528,0x38abf98ad7cfc},{1528,0x3a0a6989632b8},{1528,0x3ce22d85c5331},{1528,0x55bcf72fd10f8},{1528,0x562722aa824cf},{1528,0x5df937f03c22d},{1528,0x6e97c0d9dcebf},{1528,0x71006689d71e2},{1528,0x74cb15920ddb9},{1528,0x74e603249e177},{1528,0x77ad6349e3241},{1528,0x81ac585597dc2},{1528,0x8bab4d614c944},{1528,0x8e3fc4fe84a40},{1528,0x95aa426d014c5},{1528,0x9799ae0ec67c9},{1528,0x9bac5eb6a855d},{1528,0x9f78aa1830820},{1528,0x9fa93778b6047},{1528,0xa9a82c846abc8},{1528,0xaeac2d1ea2695},{1528,0xb305df468118b},{1528,0xb3a721901f74a},{1528,0xd9571ebbfea05},{1528,0xe1753d94807e9},{1528,0xe96bd62b0f7de},{1528,0xf024450ffc3c0},{1528,0xf0cdb3f5e0941},{1528,0xf11105e44929c},{1528,0xf21e4d9deb808},{1528,0xfeacc3e278dbe},
{1529,0x57dab3bb45d3},{1529,0xacde6a98eb4b},{1529,0xcd59b3cd417e},{1529,0x1c3b351e19f4f},{1529,0x246ccec94f52a},{1529,0x2be0b75f2d92d},{1529,0x36aed8cd94437},{1529,0x43286b410aa7b},{1529,0x533d22b01b854},{1529,0x55bcf72fd10f8},{1529,0x562722aa824cf},{1529,0x64251743f3e7c},{1529,0x6e97a52467095},{1529,0x756ca7016f42d},{1529,0x8e3fc4fe84a40},{1529,0x8fd649d43cc3c},{1529,0x9bac5eb6a855d},{1529,0xa2f09e1fe6a5c},{1529,0xaeac2d1ea2695},{1529,0xca3d8e6d80cba},{1529,0xd202e7820c5db},{1529,0xd4f5f8fee64f1},{1529,0xd9571ebbfea05},{1529,0xe1753d94807e9},{1529,0xe8ca3185deb71},{1529,0xe96bd62b0f7de},{1529,0xecdbe6fdbfcec},{1529,0xf024450ffc3c0},{1529,0xf0cdb3f5e0941},{1529,0xf11105e44929c},{1529,0xf36ee745f66cf},{1529,0xf3cbdc494bf4b},
{1530,0x889503fbb794},{1530,0xacde6a98eb4b},{1530,0xcd59b3cd417e},{1530,0x179343a20f597},{1530,0x246ccec94f52a},{1530,0x2be0b75f2d92d},{1530,0x366b86df2badc},{1530,0x36aed8cd94437},{1530,0x3d1a36872b0be},{1530,0x533d22b01b854},{1530,0x55bcf72fd10f8},{1530,0x562722aa824cf},{1530,0x5ddb8099b52b4},{1530,0x64251743f3e7c},{1530,0x741c0d5964566},{1530,0x8e3fc4fe84a40},{1530,0x8fd649d43cc3c},{1530,0x9bac5eb6a855d},{1530,0xa2f09e1fe6a5c},{1530,0xabb0eb5522e03},{1530,0xae478e3106cef},{1530,0xaeac2d1ea2695},{1530,0xb31d2d7ba7eb7},{1530,0xc1d1130ec45c3},{1530,0xc98a7197f170e},{1530,0xca3d8e6d80cba},{1530,0xd9571ebbfea05},{1530,0xe1753d94807e9},{1530,0xe41b9abd35266},{1530,0xe648e6b589309},{1530,0xe8ca3185deb71},{1530,0xee64759946fe7},{1530,0xf024450ffc3c0},{1530,0xf0cdb3f5e0941},{1530,0xf11105e44929c},{1530,0xf36ee745f66cf},{1530,0xf3cbdc494bf4b},
{1531,0x6d1ba172af31},{1531,0xacde6a98eb4b},{1531,0x179343a20f597},{1531,0x24fd12ac1acd6},{1531,0x27210e37d1ce7},{1531,0x2be0b75f2d92d},{1531,0x36aed8cd94437},{1531,0x37bc2087369a3},{1531,0x3d1a36872b0be},{1531,0x51e913d4a4ef6},{1531,0x533d22b01b854},{1531,0x55bcf72fd10f8},{1531,0x599e6bd54fb8b},{1531,0x5ddb8099b52b4},{1531,0x6b8994d52a71c},{1531,0x741c0d5964566},{1531,0x7c56caa7dbdaa},{1531,0x81420de9d192c},{1531,0x83abe27a55ebc},{1531,0x84254c79f9110},{1531,0x8e3fc4fe84a40},{1531,0x9bac5eb6a855d},{1531,0x9d006d921eebb},{1531,0xa2f09e1fe6a5c},{1531,0xabb0eb5522e03},{1531,0xae478e3106cef},{1531,0xaeac2d1ea2695},{1531,0xb63d87dbec0b5},{1531,0xc98a7197f170e},{1531,0xca3d8e6d80cba},{1531,0xd1f570b8c43fc},{1531,0xd9571ebbfea05},{1531,0xda9836a236492},{1531,0xe3ddca2aa2cf6},{1531,0xe4972badeb013},{1531,0xe648e6b589309},{1531,0xe817c74f98e80},{1531,0xe8ca3185deb71},{1531,0xee9620b99fb95},{1531,0xf024450ffc3c0},{1531,0xf11105e44929c},{1531,0xf89515c554716},
{1532,0x14a05688494c},{1532,0x6d1ba172af31},{1532,0xacde6a98eb4b},{1532,0xb48fa74394cd},{1532,0x179343a20f597},{1532,0x22380d677c3cb},{1532,0x2ee7f382b308f},{1532,0x3d1a36872b0be},{1532,0x3e4f20cf6d386},{1532,0x40c4b07fda282},{1532,0x533d22b01b854},{1532,0x54490da1a431d},{1532,0x55bcf72fd10f8},{1532,0x599e6bd54fb8b},{1532,0x60630c80c07bd},{1532,0x6085b742bd600},{1532,0x62a4ba15bda80},{1532,0x6558388edba27},{1532,0x741c0d5964566},{1532,0x7c56caa7dbdaa},{1532,0x8fa3b463e1403},{1532,0x949f835045407},{1532,0x9ae391a1559eb},{1532,0x9bac5eb6a855d},{1532,0xa2f09e1fe6a5c},{1532,0xb63d87dbec0b5},{1532,0xc69a4c8accd8f},{1532,0xc98a7197f170e},{1532,0xca3d8e6d80cba},{1532,0xce1f74dc9bc07},{1532,0xd1f570b8c43fc},{1532,0xd9571ebbfea05},{1532,0xdcd75b53f6d67},{1532,0xe3ddca2aa2cf6},{1532,0xee9620b99fb95},{1532,0xf024450ffc3c0},{1532,0xf11105e44929c},{1532,0xf89515c554716},{1532,0xf8d7eb2f2a644},
{1533,0x77bc184e63e0},{1533,0xacde6a98eb4b},{1533,0x1547ef7fee04f},{1533,0x179343a20f597},{1533,0x19c21261f844e},{1533,0x19d1608d959bf},{1533,0x27177de325161},{1533,0x2b0480dd426bb},{1533,0x2ee7f382b308f},{1533,0x3e75be18757df},{1533,0x4742b8ba759d6},{1533,0x55bcf72fd10f8},{1533,0x599e6bd54fb8b},{1533,0x60630c80c07bd},{1533,0x7dddf6b095ff0},{1533,0x7ecfee464d8a2},{1533,0x85811f76ad79e},{1533,0x9508146d57687},{1533,0x9968bccc4dbd3},{1533,0x997ac548a72c8},{1533,0xa2f09e1fe6a5c},{1533,0xa308bf09144b1},{1533,0xb63d87dbec0b5},{1533,0xc2e11e27b98f5},{1533,0xc434fb0435ed2},{1533,0xc69a4c8accd8f},{1533,0xc98a7197f170e},{1533,0xca3d8e6d80cba},{1533,0xce1f74dc9bc07},{1533,0xd1f570b8c43fc},{1533,0xd9571ebbfea05},{1533,0xdcd75b53f6d67},{1533,0xe76dbfe1dd9d1},{1533,0xeabfe5068613c},{1533,0xf3cbdc494bf4b},{1533,0xf4f47889b9c70},{1533,0xf89515c554716},{1533,0xf8d7eb2f2a644},
{1534,0xacde6a98eb4b},{1534,0x1547ef7fee04f},{1534,0x19c21261f844e},{1534,0x19d1608d959bf},{1534,0x1cd5aa423b0b3},{1534,0x27177de325161},{1534,0x2b0480dd426bb},{1534,0x2cf63a2ffaba5},{1534,0x2ee7f382b308f},{1534,0x3e75be18757df},{1534,0x4feafd8b730e9},{1534,0x55bcf72fd10f8},{1534,0x599e6bd54fb8b},{1534,0x64d96c1f72413},{1534,0x6df11e055d6ef},{1534,0x997ac548a72c8},{1534,0x9febe73fe5076},{1534,0xa308bf09144b1},{1534,0xa40dc28f0b655},{1534,0xa7df56f21722c},{1534,0xb00184ab8d4b1},{1534,0xb156dc38782cc},{1534,0xb63d87dbec0b5},{1534,0xc434fb0435ed2},{1534,0xc69a4c8accd8f},{1534,0xc98a7197f170e},{1534,0xca3d8e6d80cba},{1534,0xd1f570b8c43fc},{1534,0xdd33146a0c66d},{1534,0xeabfe5068613c},{1534,0xec9bc5e8ea748},{1534,0xf06d5a4bf631f},{1534,0xf6e631dc7215a},{1534,0xf89515c554716},{1534,0xf8d7eb2f2a644},
{1535,0x1547ef7fee04f},{1535,0x19c21261f844e},{1535,0x1cd5aa423b0b3},{1535,0x1e667904707f4},{1535,0x237f306f0a428},{1535,0x27177de325161},{1535,0x2b0480dd426bb},{1535,0x2cf63a2ffaba5},{1535,0x2d5c721a80e1a},{1535,0x2def16d956e1a},{1535,0x34bd1f7adbf4d},{1535,0x3e75be18757df},{1535,0x3e9c5b617dc38},{1535,0x419c86c2a5b9f},{1535,0x449644e2e5e59},{1535,0x4feafd8b730e9},{1535,0x55bcf72fd10f8},{1535,0x599e6bd54fb8b},{1535,0x6df11e055d6ef},{1535,0x93dd452395e84},{1535,0x9813653f62db7},{1535,0xa308bf09144b1},{1535,0xb63d87dbec0b5},{1535,0xba3884b15ea98},{1535,0xbb4de89b2d120},{1535,0xc69a4c8accd8f},{1535,0xca3d8e6d80cba},{1535,0xcc407e829cbc6},{1535,0xd1e6b07a6c9fe},{1535,0xd1f570b8c43fc},{1535,0xd6885ea975fe3},{1535,0xdb6caa2b35a01},{1535,0xdd33146a0c66d},{1535,0xe5fbac2378a57},{1535,0xeabfe5068613c},{1535,0xef1f4c9190db2},{1535,0xf5ed553315ee5},{1535,0xf6e631dc7215a},{1535,0xf89515c554716},{1535,0xf8d7eb2f2a644},
{1536,0xc2c3da026176},{1536,0xddaa50475d05},{1536,0x19c21261f844e},{1536,0x1e667904707f4},{1536,0x237f306f0a428},{1536,0x27177de325161},{1536,0x2b0480dd426bb},{1536,0x2d5c721a80e1a},{1536,0x2fe0d02c0f304},{1536,0x3a15ecd2859ca},{1536,0x3c9e13cf6da90},{1536,0x3e75be18757df},{1536,0x4feafd8b730e9},{1536,0x55bcf72fd10f8},{1536,0x56cfabc2c7169},{1536,0x599e6bd54fb8b},{1536,0x6c372d0dcea17},{1536,0x70bf3e90c4e48},{1536,0x745203b8f8a57},{1536,0x7dddf6b095ff0},{1536,0x8168ab32d9d85},{1536,0x8229bda003342},{1536,0x831442b3af8cf},{1536,0x87fabdf097dc8},{1536,0x926aa45ae47ba},{1536,0x93dd452395e84},{1536,0x9813653f62db7},{1536,0xa26e49e4f334d},{1536,0xa308bf09144b1},{1536,0xa4b520bbed842},{1536,0xb63d87dbec0b5},{1536,0xc0f41a92fcf57},{1536,0xc69a4c8accd8f},{1536,0xca3d8e6d80cba},{1536,0xcc407e829cbc6},{1536,0xd1e6b07a6c9fe},{1536,0xd1f570b8c43fc},{1536,0xdd33146a0c66d},{1536,0xe5fbac2378a57},{1536,0xf3fb9be05d9fb},{1536,0xf6e631dc7215a},{1536,0xf8d7eb2f2a644},
{1537,0x6889999671f5},{1537,0xa604d0ea6dc0},{1537,0xad8840c15a4c},{1537,0xc2c3da026176},{1537,0x19c21261f844e},{1537,0x1e667904707f4},{1537,0x237f306f0a428},{1537,0x2628318e75a72},{1537,0x27cbd2bea36f8},{1537,0x3a15ecd2859ca},{1537,0x3c9e13cf6da90},{1537,0x3e75be18757df},{1537,0x4e2237da833f2},{1537,0x4feafd8b730e9},{1537,0x55bcf72fd10f8},{1537,0x57c6d26401947},{1537,0x5c74244def458},{1537,0x697fa01f914dc},{1537,0x6dfc948dfb44a},{1537,0x6edbda9034760},{1537,0x70bf3e90c4e48},{1537,0x78d8e88a594a1},{1537,0x8229bda003342},{1537,0x93dd452395e84},{1537,0x9813653f62db7},{1537,0xa4b520bbed842},{1537,0xb63d87dbec0b5},{1537,0xc0f41a92fcf57},{1537,0xc69a4c8accd8f},{1537,0xca3d8e6d80cba},{1537,0xcc407e829cbc6},{1537,0xccae4e03fdddb},{1537,0xd7efbeb2ba4f4},{1537,0xdd33146a0c66d},{1537,0xea42fd42c4169},{1537,0xf9720e411bd82},
{1538,0x6889999671f5},{1538,0x14944295b4b41},{1538,0x19c21261f844e},{1538,0x1e667904707f4},{1538,0x205d15509bf23},{1538,0x237f306f0a428},{1538,0x2628318e75a72},{1538,0x300ea21f3bf5c},{1538,0x36565af754cf6},{1538,0x3c9e13cf6da90},{1538,0x3e75be18757df},{1538,0x492d857f9f5c4},{1538,0x4dac83543e132},{1538,0x4feafd8b730e9},{1538,0x55bcf72fd10f8},{1538,0x57c6d26401947},{1538,0x5dd48bf11cabe},{1538,0x5e1fd53944686},{1538,0x6dfc948dfb44a},{1538,0x78d8e88a594a1},{1538,0x8229bda003342},{1538,0x887626e4de12c},{1538,0x8f308f776736b},{1538,0x9358d95db8089},{1538,0x93dd452395e84},{1538,0x945c5dad9cca4},{1538,0x9813653f62db7},{1538,0xb63d87dbec0b5},{1538,0xc0f41a92fcf57},{1538,0xca3d8e6d80cba},{1538,0xcc407e829cbc6},{1538,0xccae4e03fdddb},{1538,0xdd33146a0c66d},{1538,0xea42fd42c4169},{1538,0xecfe5f3dbb0f3},
{1539,0x309e4ded3406},{1539,0x6889999671f5},{1539,0xad8840c15a4c},{1539,0x14944295b4b41},{1539,0x1510b160fc2b4},{1539,0x160c046bc6d0e},{1539,0x29c6e947231c2},{1539,0x300ea21f3bf5c},{1539,0x36565af754cf6},{1539,0x3c9e13cf6da90},{1539,0x3e75be18757df},{1539,0x42e5cca78682a},{1539,0x46ddc30e041aa},{1539,0x57c6d26401947},{1539,0x5d42479e0938b},{1539,0x5dd48bf11cabe},{1539,0x660017458c9f1},{1539,0x7024c96ca3ce4},{1539,0x78d8e88a594a1},{1539,0x7927438653813},{1539,0x8229bda003342},{1539,0x887626e4de12c},{1539,0x8e4ca5c7b8762},{1539,0x9044c61220772},{1539,0x93dd452395e84},{1539,0x945c5dad9cca4},{1539,0x9a7cf36706fda},{1539,0xab70c3fea2e7c},{1539,0xb319ab6fdf9e8},{1539,0xc0f41a92fcf57},{1539,0xc6eb204ef1358},{1539,0xca3d8e6d80cba},{1539,0xccae4e03fdddb},{1539,0xdd55745cbb7ec},{1539,0xe9446412402ec},{1539,0xea42fd42c4169},{1539,0xecfe5f3dbb0f3},
{1540,0x6889999671f5},{1540,0x8bd73fe2f2b2},{1540,0xad8840c15a4c},{1540,0x14944295b4b41},{1540,0x16c1eccbabc9c},{1540,0x22446193dcd1c},{1540,0x300ea21f3bf5c},{1540,0x33327e8b48629},{1540,0x36565af754cf6},{1540,0x366bc1e27edfd},{1540,0x397a3763613c3},{1540,0x3c9e13cf6da90},{1540,0x3d847ab75f7a6},{1540,0x3e75be18757df},{1540,0x46ddc30e041aa},{1540,0x4d8ea50f1b0df},{1540,0x57c6d26401947},{1540,0x5dd48bf11cabe},{1540,0x6212dd354d63b},{1540,0x660017458c9f1},{1540,0x7024c96ca3ce4},{1540,0x78d8e88a594a1},{1540,0x7921e2e584490},{1540,0x7927438653813},{1540,0x83d56e8b58570},{1540,0x9044c61220772},{1540,0x945c5dad9cca4},{1540,0xa1aac5d1240ef},{1540,0xab70c3fea2e7c},{1540,0xb319ab6fdf9e8},{1540,0xc6a5de25ec30d},{1540,0xca3d8e6d80cba},{1540,0xcb2c47e7e37bf},{1540,0xccae4e03fdddb},{1540,0xe24f2b147faa1},{1540,0xe4ea5aef4bc2d},{1540,0xea42fd42c4169},{1540,0xf17b53ac25061},
{1541,0x1282a60bc289a},{1541,0x14944295b4b41},{1541,0x36565af754cf6},{1541,0x3940145cdb0b3},{1541,0x397a3763613c3},{1541,0x46ddc30e041aa},{1541,0x57c6d26401947},{1541,0x5dd48bf11cabe},{1541,0x65e8903f8bf84},{1541,0x7024c96ca3ce4},{1541,0x78d8e88a594a1},{1541,0x7927438653813},{1541,0x83d56e8b58570},{1541,0x945c5dad9cca4},{1541,0x9d0afebc409f4},{1541,0x9d312bed124cf},{1541,0xb68ce94ecc42e},{1541,0xbe660f3dc353d},{1541,0xbe68d11d0ca8a},{1541,0xcb2c47e7e37bf},{1541,0xe8f45d1683690},{1541,0xf25dc7a642282},{1541,0xf512638c2a5b9},
{1542,0x1e0339faea8b5},{1542,0x1fe456fb21154},{1542,0x2786e8034690b},{1542,0x3524bc37e20f0},{1542,0x358e76513f848},{1542,0x36565af754cf6},{1542,0x380ac46984544},{1542,0x3940145cdb0b3},{1542,0x57c6d26401947},{1542,0x5a54ddb93b361},{1542,0x5dd48bf11cabe},{1542,0x65e8903f8bf84},{1542,0x7024c96ca3ce4},{1542,0x78d8e88a594a1},{1542,0x7927438653813},{1542,0x7bafee3abdeaa},{1542,0x83d56e8b58570},{1542,0x945c5dad9cca4},{1542,0x9d0afebc409f4},{1542,0x9d312bed124cf},{1542,0xa3647483d00a7},{1542,0xa44a387bd15fd},{1542,0xbe660f3dc353d},{1542,0xcb2c47e7e37bf},{1542,0xce6ac8b9d5a2d},{1542,0xd3dc6dc40888b},{1542,0xdfc11fbf46087},{1542,0xe0e058c8141ca},{1542,0xe1082569e2d94},{1542,0xe8f45d1683690},{1542,0xf25dc7a642282},{1542,0xf32a4509fa100},{1542,0xf455f796a894e},
{1543,0x62782a310e1a},{1543,0x113ba06125b8d},{1543,0x143aa13731a72},{1543,0x2f084a4fd4a15},{1543,0x358e76513f848},{1543,0x36565af754cf6},{1543,0x38f9cd37b8817},{1543,0x3940145cdb0b3},{1543,0x4b6e1142a1eab},{1543,0x4d8ea50f1b0df},{1543,0x64f569ff6e276},{1543,0x65e8903f8bf84},{1543,0x7024c96ca3ce4},{1543,0x78d8e88a594a1},{1543,0x7927438653813},{1543,0x7bafee3abdeaa},{1543,0x7ca8e3d68578d},{1543,0x83d56e8b58570},{1543,0x945c5dad9cca4},{1543,0x9d0afebc409f4},{1543,0x9d312bed124cf},{1543,0xa3647483d00a7},{1543,0xb141488972fb3},{1543,0xbe660f3dc353d},{1543,0xc0e0c491aaa97},{1543,0xc3c3515bcb6d2},{1543,0xcb2c47e7e37bf},{1543,0xd650c524b26b2},{1543,0xdfc11fbf46087},{1543,0xe8f45d1683690},{1543,0xf25dc7a642282},{1543,0xf32a4509fa100},{1543,0xf455f796a894e},
{1544,0x30e88d201110},{1544,0x50abba2b6895},{1544,0x5de28afee8c2},{1544,0x62782a310e1a},{1544,0x12c1d6ee3f311},{1544,0x143aa13731a72},{1544,0x2275250a7d512},{1544,0x2a044328bc75c},{1544,0x32287326bb713},{1544,0x35c83f0d30777},{1544,0x38f9cd37b8817},{1544,0x3940145cdb0b3},{1544,0x4b6e1142a1eab},{1544,0x4d41f02856d5f},{1544,0x4fa015d133d52},{1544,0x57234f8eb32c0},{1544,0x62237ce67d9a6},{1544,0x64f569ff6e276},{1544,0x65e8903f8bf84},{1544,0x78d8e88a594a1},{1544,0x7927438653813},{1544,0x7ca8e3d68578d},{1544,0x806399bb9c08d},{1544,0x82130a8fcdfeb},{1544,0x83877627a875a},{1544,0x83d56e8b58570},{1544,0x8434e609047c8},{1544,0x86ab5293b4e27},{1544,0x89cf2effc14f4},{1544,0x90fdf9d555494},{1544,0x945c5dad9cca4},{1544,0x96a7e267308b3},{1544,0x9a356fffb120f},{1544,0x9d0afebc409f4},{1544,0x9d312bed124cf},{1544,0xa3647483d00a7},{1544,0xac0fd784b41bb},{1544,0xb7967f47e6496},{1544,0xbe660f3dc353d},{1544,0xc3c3515bcb6d2},{1544,0xdfc11fbf46087},{1544,0xe4caca2e2e6cc},{1544,0xe8857516e7e3c},{1544,0xf25dc7a642282},{1544,0xf32a4509fa100},
{1545,0x226df35a8638},{1545,0x62782a310e1a},{1545,0x6e811171344d},{1545,0x12c1d6ee3f311},{1545,0x143aa13731a72},{1545,0x146d2e8badc2d},{1545,0x2a044328bc75c},{1545,0x38f9cd37b8817},{1545,0x3d1198bb5ecfb},{1545,0x4b6e1142a1eab},{1545,0x61425d7b75d16},{1545,0x62237ce67d9a6},{1545,0x64f569ff6e276},{1545,0x65e8903f8bf84},{1545,0x6b20c2458ba2b},{1545,0x7ca8e3d68578d},{1545,0x83877627a875a},{1545,0x86ab5293b4e27},{1545,0x945c5dad9cca4},{1545,0xa3647483d00a7},{1545,0xac0fd784b41bb},{1545,0xafc2e408ac71b},{1545,0xb62d71d1201d6},{1545,0xbb3481133b49d},{1545,0xbcf92b75ec592},{1545,0xbe660f3dc353d},{1545,0xcf4d84844e7be},{1545,0xd68de26808a7d},{1545,0xdfc11fbf46087},{1545,0xe855b95811d10},{1545,0xe8857516e7e3c},{1545,0xf2076f154b67c},{1545,0xf32a4509fa100},{1545,0xfe436a95e3120},
{1546,0x226df35a8638},{1546,0x62782a310e1a},{1546,0x6e811171344d},{1546,0x12c1d6ee3f311},{1546,0x143aa13731a72},{1546,0x146d2e8badc2d},{1546,0x17b0122e55dc4},{1546,0x201412b9f7280},{1546,0x230a142b3fe5d},{1546,0x29020663104f5},{1546,0x2a044328bc75c},{1546,0x3d1198bb5ecfb},{1546,0x4b6e1142a1eab},{1546,0x61425d7b75d16},{1546,0x6b20c2458ba2b},{1546,0x6b9817a2a2d19},{1546,0x7ca8e3d68578d},{1546,0x8ebf87c3b920d},{1546,0x945c5dad9cca4},{1546,0xa69fa93bd8bd5},{1546,0xafc2e408ac71b},{1546,0xb62d71d1201d6},{1546,0xbcf92b75ec592},{1546,0xcf4d84844e7be},{1546,0xcf59737404009},{1546,0xd22573a28f19d},{1546,0xd68de26808a7d},{1546,0xdfc11fbf46087},{1546,0xe728b4901d724},{1546,0xf2076f154b67c},{1546,0xf32a4509fa100},{1546,0xfe436a95e3120},
{1547,0x226df35a8638},{1547,0x6f40006c8c98},{1547,0xb4a06e0ab133},{1547,0x12c1d6ee3f311},{1547,0x143aa13731a72},{1547,0x1da7509122777},{1547,0x28437300a379f},{1547,0x2a044328bc75c},{1547,0x2c4ed70752ad8},{1547,0x357078725662c},{1547,0x3d1198bb5ecfb},{1547,0x4b401c8dbde0c},{1547,0x54dab35f7a642},{1547,0x61425d7b75d16},{1547,0x6b20c2458ba2b},{1547,0x7ca8e3d68578d},{1547,0x846193112b2be},{1547,0x8ebf87c3b920d},{1547,0xa69fa93bd8bd5},{1547,0xafc2e408ac71b},{1547,0xb558155be2f3f},{1547,0xb62d71d1201d6},{1547,0xbcf92b75ec592},{1547,0xcf4d84844e7be},{1547,0xd10e54ac6777b},{1547,0xd22573a28f19d},{1547,0xdfc11fbf46087},{1547,0xe0e0fbb80498a},{1547,0xe404d82411057},{1547,0xe4b66a7ccf959},{1547,0xe728b4901d724},{1547,0xe8e4476a48b81},{1547,0xea4c90fc29df1},{1547,0xeb32cf281f917},{1547,0xf2076f154b67c},{1547,0xfb2a96c04e176},{1547,0xfe436a95e3120},
{1548,0x226df35a8638},{1548,0x6c3f03862bdd},{1548,0xbb3b2c728dd1},{1548,0x12c1d6ee3f311},{1548,0x1d905636b0728},{1548,0x28437300a379f},{1548,0x2a044328bc75c},{1548,0x2c4ed70752ad8},{1548,0x4b401c8dbde0c},{1548,0x51f4c0a2a7bf8},{1548,0x52762b6b94796},{1548,0x6899e6568f002},{1548,0x6b20c2458ba2b},{1548,0x7585934ff88dd},{1548,0x7934d1f4215df},{1548,0x7ca8e3d68578d},{1548,0x7ea8bafafb3d7},{1548,0x8ebf87c3b920d},{1548,0x9d3d1adcc7d1a},{1548,0xa6db9c4176784},{1548,0xb2115968389a2},{1548,0xb62d71d1201d6},{1548,0xbcf92b75ec592},{1548,0xcd02f0a5b8442},{1548,0xcf4d84844e7be},{1548,0xd10e54ac6777b},{1548,0xd4518a07d2e56},{1548,0xdfc11fbf46087},{1548,0xe404d82411057},{1548,0xe728b4901d724},{1548,0xe9741fd116418},{1548,0xeb32cf281f917},{1548,0xf2076f154b67c},{1548,0xf3b826404f258},{1548,0xfb2a96c04e176},{1548,0xfe7f15f4347b0},
{1549,0x6c3f03862bdd},{1549,0x11894b202e9f4},{1549,0x1d905636b0728},{1549,0x2c4ed70752ad8},{1549,0x32c853f13960d},{1549,0x3fc2eed261d79},{1549,0x50f8f4a3edcf3},{1549,0x51f4c0a2a7bf8},{1549,0x52762b6b94796},{1549,0x6085e41185e88},{1549,0x6b20c2458ba2b},{1549,0x6c3114c3916ce},{1549,0x7934d1f4215df},{1549,0x7ca8e3d68578d},{1549,0x7ea8bafafb3d7},{1549,0x84111939e3ee7},{1549,0x92c988e63daca},{1549,0x95845196da652},{1549,0xa6db9c4176784},{1549,0xb62d71d1201d6},{1549,0xbcf92b75ec592},{1549,0xcf4d84844e7be},{1549,0xd22573a28f19d},{1549,0xd44f6f92e62ba},{1549,0xdbd19eee30267},{1549,0xdfc11fbf46087},{1549,0xe404d82411057},{1549,0xe728b4901d724},{1549,0xe849ca685c4c5},{1549,0xe9741fd116418},{1549,0xeb32cfeba5e54},{1549,0xf3b826404f258},{1549,0xfe7f15f4347b0},
{1550,0x6c3f03862bdd},{1550,0x11894b202e9f4},{1550,0x2357684599702},{1550,0x2c4ed70752ad8},{1550,0x2ce2d0fbf17af},{1550,0x32c853f13960d},{1550,0x3744a56d4f20d},{1550,0x3ffc6116420de},{1550,0x4ef48b1b6281c},{1550,0x51f4c0a2a7bf8},{1550,0x6085e41185e88},{1550,0x67413b4b0d7c3},{1550,0x690d385785001},{1550,0x6b20c2458ba2b},{1550,0x6c3114c3916ce},{1550,0x7ca8e3d68578d},{1550,0x7ea8bafafb3d7},{1550,0x95845196da652},{1550,0x97e0c52e3d369},{1550,0x9db47039df008},{1550,0xa3793099dde49},{1550,0xa7e15a2e1502e},{1550,0xa9ace4a9d76f9},{1550,0xbcd5608afb75e},{1550,0xbcf92b75ec592},{1550,0xc60cd088a75a1},{1550,0xcf4d84844e7be},{1550,0xd22573a28f19d},{1550,0xd44f6f92e62ba},{1550,0xda0847a9161a0},{1550,0xdfc11fbf46087},{1550,0xe404d82411057},{1550,0xe579f7d575f6d},{1550,0xfeb9cc26621cc},
{1551,0xabfb59fd31e},{1551,0x635110b707e8},{1551,0x6c3f03862bdd},{1551,0xdaba5b8c9bad},{1551,0x11894b202e9f4},{1551,0x13929aa679128},{1551,0x169c1cc7103fe},{1551,0x2c4ed70752ad8},{1551,0x2ce2d0fbf17af},{1551,0x32c853f13960d},{1551,0x3744a56d4f20d},{1551,0x39079798da43e},{1551,0x4ef48b1b6281c},{1551,0x51f4c0a2a7bf8},{1551,0x5382150eb7a9e},{1551,0x5af6b034252f2},{1551,0x64e4ac88758fc},{1551,0x64f46bc45c8f2},{1551,0x690d385785001},{1551,0x6aad43da8c7d8},{1551,0x6b20c2458ba2b},{1551,0x77d4986e43600},{1551,0x7ca8e3d68578d},{1551,0x7ea8bafafb3d7},{1551,0x874cf96fb4c3a},{1551,0x8873d49001403},{1551,0x8f2107cfd87ed},{1551,0x95845196da652},{1551,0xa25ac5c1d14bc},{1551,0xa689083dcb02c},{1551,0xa9ace4a9d76f9},{1551,0xb26d42d200ae0},{1551,0xb5031c6866283},{1551,0xb7b33723f6839},{1551,0xbcf92b75ec592},{1551,0xcf4d84844e7be},{1551,0xd22573a28f19d},{1551,0xda0847a9161a0},{1551,0xdfc11fbf46087},{1551,0xe404d82411057},{1551,0xf0eba801d5d3a},{1551,0xfe25d231c34f5},{1551,0xfeb9cc26621cc},
{1552,0x635110b707e8},{1552,0x6c3f03862bdd},{1552,0x11894b202e9f4},{1552,0x14c63ca884f75},{1552,0x256ba009e419b},{1552,0x2ce2d0fbf17af},{1552,0x2d46e9dd17c0e},{1552,0x32c853f13960d},{1552,0x3744a56d4f20d},{1552,0x37de5e23baba4},{1552,0x452a44c7a799d},{1552,0x491daad0ba280},{1552,0x4ef48b1b6281c},{1552,0x51f4c0a2a7bf8},{1552,0x5af6b034252f2},{1552,0x5f3b93ae2ca0b},{1552,0x60e9944f16895},{1552,0x64e4ac88758fc},{1552,0x64f46bc45c8f2},{1552,0x6b20c2458ba2b},{1552,0x6ccfb59790365},{1552,0x7ca8e3d68578d},{1552,0x7ea8bafafb3d7},{1552,0x883da04252018},{1552,0x95845196da652},{1552,0xa25ac5c1d14bc},{1552,0xa9ace4a9d76f9},{1552,0xb26d42d200ae0},{1552,0xb5031c6866283},{1552,0xb63c565a0922d},{1552,0xb7b33723f6839},{1552,0xbcf92b75ec592},{1552,0xbfa567c407058},{1552,0xc173698950376},{1552,0xc39448057aa10},{1552,0xca1f0ede9e40f},{1552,0xd700c97b88d66},{1552,0xdfc11fbf46087},{1552,0xe404d82411057},{1552,0xf0eba801d5d3a},{1552,0xf1b4b6a986b0c},
{1553,0x593c18346497},{1553,0x11894b202e9f4},{1553,0x2357684599702},{1553,0x260322d04d50a},{1553,0x2ce2d0fbf17af},{1553,0x32c853f13960d},{1553,0x32ffc1f347af4},{1553,0x37de5e23baba4},{1553,0x3edd2ff1e0061},{1553,0x491daad0ba280},{1553,0x4ef48b1b6281c},{1553,0x5b6cb6958ea7a},{1553,0x5f3b93ae2ca0b},{1553,0x60e9944f16895},{1553,0x64e4ac88758fc},{1553,0x74450a4ddbbad},{1553,0x780adad830b75},{1553,0x7c58ffd82608c},{1553,0x7ca8e3d68578d},{1553,0x95845196da652},{1553,0xa25ac5c1d14bc},{1553,0xa29b65dc1f2d5},{1553,0xa8139dd8013a3},{1553,0xb5031c6866283},{1553,0xb7b33723f6839},{1553,0xbcf92b75ec592},{1553,0xbfa567c407058},{1553,0xc173698950376},{1553,0xcd20973f0d142},{1553,0xd44f6f92e62ba},{1553,0xddf5906d30de7},{1553,0xdfc11fbf46087},{1553,0xe14da74974e9f},{1553,0xe404d82411057},{1553,0xf1b4b6a986b0c},{1553,0xfb97e0b2e86f9},{1553,0xfd79de739e0ae},
{1554,0x593c18346497},{1554,0x11894b202e9f4},{1554,0x1b773a2c61a58},{1554,0x230f0d1dc6ae9},{1554,0x2357684599702},{1554,0x260322d04d50a},{1554,0x32c853f13960d},{1554,0x37de5e23baba4},{1554,0x3edd2ff1e0061},{1554,0x491daad0ba280},{1554,0x4ef48b1b6281c},{1554,0x6028b18f021bb},{1554,0x60e9944f16895},{1554,0x64e4ac88758fc},{1554,0x6c3832d126ff5},{1554,0x6ddfdaa884d5b},{1554,0x6ec93c12ce011},{1554,0x7c58ffd82608c},{1554,0x7ca8e3d68578d},{1554,0x8ef8f77bd9953},{1554,0x946f654800183},{1554,0x95845196da652},{1554,0x9f58157505318},{1554,0xa25ac5c1d14bc},{1554,0xa8139dd8013a3},{1554,0xa8f538f522a81},{1554,0xb5031c6866283},{1554,0xb7b33723f6839},{1554,0xbcf92b75ec592},{1554,0xbe3186b573b2e},{1554,0xc3c26e087a982},{1554,0xe404d82411057},{1554,0xedac8039173c0},{1554,0xf1b4b6a986b0c},
{1555,0x45a0a6e58e8},{1555,0x11894b202e9f4},{1555,0x19a2b14d169ee},{1555,0x27f8ef0cdc14c},{1555,0x32c853f13960d},{1555,0x358cdec9f3072},{1555,0x35d4ffc62ed15},{1555,0x36b694da1c475},{1555,0x374a9d03f0221},{1555,0x37de5e23baba4},{1555,0x3edd2ff1e0061},{1555,0x491daad0ba280},{1555,0x4d38c5a9344b7},{1555,0x6028b18f021bb},{1555,0x60e9944f16895},{1555,0x64e4ac88758fc},{1555,0x67d96830f2453},{1555,0x6c3832d126ff5},{1555,0x6ddec6732e047},{1555,0x6ddfdaa884d5b},{1555,0x7898a4545db11},{1555,0x7ca8e3d68578d},{1555,0x7dd066161aa93},{1555,0x819f00e4daa80},{1555,0x9171040af885c},{1555,0x91f5b4fa8ec17},{1555,0x95845196da652},{1555,0x9b651584e8b20},{1555,0x9f58157505318},{1555,0xb5031c6866283},{1555,0xbcf92b75ec592},{1555,0xbe3186b573b2e},{1555,0xc3c26e087a982},{1555,0xd6559692eb62f},{1555,0xe404d82411057},{1555,0xedac8039173c0},{1555,0xf1b4b6a986b0c},
{1556,0x45a0a6e58e8},{1556,0x1121f1c13fd92},{1556,0x153d1ab03f0f0},{1556,0x1e252b2eb1486},{1556,0x27f8ef0cdc14c},{1556,0x3218d2e5d0c86},{1556,0x32c853f13960d},{1556,0x358cdec9f3072},{1556,0x35d4ffc62ed15},{1556,0x37de5e23baba4},{1556,0x3edd2ff1e0061},{1556,0x491daad0ba280},{1556,0x4994260284a3a},{1556,0x51da6d3759d38},{1556,0x59f9c06d3acd7},{1556,0x64617e4004674},{1556,0x64e4ac88758fc},{1556,0x67d96830f2453},{1556,0x6c3832d126ff5},{1556,0x7ca8e3d68578d},{1556,0x819f00e4daa80},{1556,0x91f5b4fa8ec17},{1556,0x95845196da652},{1556,0x9b651584e8b20},{1556,0xa4d4760f42a28},{1556,0xabe86126395cb},{1556,0xb9a9dbc730ac6},{1556,0xc3c26e087a982},{1556,0xc73892ecbfbf3},{1556,0xd82ac4fb68702},{1556,0xdfcd8c85d24b1},{1556,0xedac8039173c0},{1556,0xf1b4b6a986b0c},
{1557,0x45a0a6e58e8},{1557,0xa212572d1cd9},{1557,0x153d1ab03f0f0},{1557,0x1ff9f576a2e30},{1557,0x358cdec9f3072},{1557,0x35d4ffc62ed15},{1557,0x3ea79a0c1fd2a},{1557,0x3edd2ff1e0061},{1557,0x491daad0ba280},{1557,0x59f9c06d3acd7},{1557,0x64e4ac88758fc},{1557,0x6b515221e0232},{1557,0x6c3832d126ff5},{1557,0x7241602ad16d0},{1557,0x7aeda07725b04},{1557,0x819f00e4daa80},{1557,0x99b2eaa1dfc5b},{1557,0x9b651584e8b20},{1557,0x9f58073fd0243},{1557,0xa1c791f070422},{1557,0xb075bec74fc27},{1557,0xb9a9dbc730ac6},{1557,0xc3c26e087a982},{1557,0xc703d25e2f999},{1557,0xc9a6d2e489e93},{1557,0xca91f838aa64a},{1557,0xd5af49385bae9},{1557,0xdbc0a4a82d840},{1557,0xe09e263e0c518},{1557,0xedac8039173c0},{1557,0xf1b4b6a986b0c},{1557,0xfe295f7f06a35},
{1558,0x45a0a6e58e8},{1558,0xb681ac997408},{1558,0xdde6d69a39a0},{1558,0x1ff9f576a2e30},{1558,0x33462ff967d44},{1558,0x348bd023ae858},{1558,0x3ea79a0c1fd2a},{1558,0x3edd2ff1e0061},{1558,0x48a22eb89577c},{1558,0x491daad0ba280},{1558,0x656bcc6fc7f99},{1558,0x6b515221e0232},{1558,0x7241602ad16d0},{1558,0x79d0ff93e50ad},{1558,0x7aeda07725b04},{1558,0x7db3eacffc6d8},{1558,0x819f00e4daa80},{1558,0x8442016b34f7a},{1558,0x9b651584e8b20},{1558,0x9f58073fd0243},{1558,0xae2f0ff6c48f9},{1558,0xb075bec74fc27},{1558,0xc9a6d2e489e93},{1558,0xd15e5e9a096a6},{1558,0xdbc0a4a82d840},{1558,0xe5c391be267ba},{1558,0xf1b4b6a986b0c},{1558,0xfe295f7f06a35},
{1559,0x45a0a6e58e8},{1559,0x2b026c63588d},{1559,0xb681ac997408},{1559,0xdde6d69a39a0},{1559,0x1ff9f576a2e30},{1559,0x33462ff967d44},{1559,0x348bd023ae858},{1559,0x48a22eb89577c},{1559,0x491daad0ba280},{1559,0x4c0c3291a3943},{1559,0x556a6e318fcf6},{1559,0x68d1ffa0777c7},{1559,0x714c4bac38fea},{1559,0x7aeda07725b04},{1559,0x819f00e4daa80},{1559,0x9b651584e8b20},{1559,0x9f58073fd0243},{1559,0xa388fb6506d39},{1559,0xaf52675f0a290},{1559,0xb075bec74fc27},{1559,0xc3c591d74b5ee},{1559,0xc73892ecbfbf3},{1559,0xc9a6d2e489e93},{1559,0xcdf82b6959e78},{1559,0xdbc0a4a82d840},{1559,0xfe295f7f06a35},{1559,0xfe6fc811782f6},
{1560,0x11f2d73116f4},{1560,0xb681ac997408},{1560,0xdde6d69a39a0},{1560,0xe520b62d36fa},{1560,0x15b108201d11c},{1560,0x18df068d44a9c},{1560,0x1b81fb3761a44},{1560,0x1c835bd3f7d78},{1560,0x1ff9f576a2e30},{1560,0x29e3dadace9c3},{1560,0x2a8a2452b80dd},{1560,0x33462ff967d44},{1560,0x348bd023ae858},{1560,0x3959c4d16beb7},{1560,0x4689b4a5fa201},{1560,0x48155d93b25fa},{1560,0x5104170302d68},{1560,0x57318e6b7632a},{1560,0x5e43d806999b5},{1560,0x68d1ffa0777c7},{1560,0x714c4bac38fea},{1560,0x750958058079d},{1560,0x77801b3e1ab61},{1560,0x7aeda07725b04},{1560,0x9b651584e8b20},{1560,0x9bceff7ac0279},{1560,0x9f58073fd0243},{1560,0xa388fb6506d39},{1560,0xb075bec74fc27},{1560,0xc73892ecbfbf3},{1560,0xc9a6d2e489e93},{1560,0xd4c491cab8ed4},{1560,0xdbc0a4a82d840},{1560,0xec352ba995b9f},
{1561,0x11f2d73116f4},{1561,0x643a41e5457e},{1561,0xb681ac997408},{1561,0xd3ee2683069b},{1561,0xdde6d69a39a0},{1561,0x108c9174da292},{1561,0x1b81fb3761a44},{1561,0x29e3dadace9c3},{1561,0x2a8a2452b80dd},{1561,0x2b16ac023ab0e},{1561,0x2c99b03a58629},{1561,0x33462ff967d44},{1561,0x348bd023ae858},{1561,0x38f6e502c3d37},{1561,0x3959c4d16beb7},{1561,0x4689b4a5fa201},{1561,0x46d3ffb99c5fb},{1561,0x48155d93b25fa},{1561,0x5e43d806999b5},{1561,0x67f872d44b9bc},{1561,0x68d1ffa0777c7},{1561,0x714c4bac38fea},{1561,0x750958058079d},{1561,0x7aeda07725b04},{1561,0x9b651584e8b20},{1561,0x9bceff7ac0279},{1561,0x9f58073fd0243},{1561,0xa388fb6506d39},{1561,0xaac509bdf3c34},{1561,0xbe4242979ba6e},{1561,0xc73204cc52a93},{1561,0xc94190b3f2fdf},{1561,0xc9a6d2e489e93},{1561,0xcc4511d102261},{1561,0xd4c491cab8ed4},{1561,0xd95a26eee6b3d},{1561,0xe4bd3e0d4cfb0},{1561,0xe90d7af9437e7},{1561,0xec352ba995b9f},
{1562,0x11f2d73116f4},{1562,0x3b168c8b2e39},{1562,0x643a41e5457e},{1562,0x8d5df73f5cc3},{1562,0xdde6d69a39a0},{1562,0x1566798844d88},{1562,0x180a114673c65},{1562,0x1ad57ecb5ffa6},{1562,0x245654c0d6566},{1562,0x29e3dadace9c3},{1562,0x2a8a2452b80dd},{1562,0x2b16ac023ab0e},{1562,0x33462ff967d44},{1562,0x348bd023ae858},{1562,0x38f6e502c3d37},{1562,0x4689b4a5fa201},{1562,0x4e42217bfd10a},{1562,0x5e43d806999b5},{1562,0x62d96d2ac761e},{1562,0x68d1ffa0777c7},{1562,0x714c4bac38fea},{1562,0x71517f9a2e43a},{1562,0x750958058079d},{1562,0x9a8b88b8bcd14},{1562,0x9bceff7ac0279},{1562,0xa388fb6506d39},{1562,0xaa402acfd053f},{1562,0xaac509bdf3c34},{1562,0xbe4242979ba6e},{1562,0xc94190b3f2fdf},{1562,0xc9a6d2e489e93},{1562,0xce55753872be3},{1562,0xd2089ec48d2d5},{1562,0xd4c491cab8ed4},{1562,0xd95a26eee6b3d},{1562,0xe4bd3e0d4cfb0},{1562,0xe90d7af9437e7},{1562,0xec352ba995b9f},{1562,0xf1e5e0b2f1b92},
{1563,0x11f2d73116f4},{1563,0xdfa561f38b4d},{1563,0x1225c8d4ce8fe},{1563,0x1566798844d88},{1563,0x174ca697df63c},{1563,0x19fbf1ff3419a},{1563,0x1ad57ecb5ffa6},{1563,0x1c835bd3f7d78},{1563,0x245654c0d6566},{1563,0x27b0a777873ff},{1563,0x2a8a2452b80dd},{1563,0x2f49e2f636f33},{1563,0x4689b4a5fa201},{1563,0x5dc98655bd4cf},{1563,0x6079b9119bdd9},{1563,0x63a432c8f5cd6},{1563,0x68d1ffa0777c7},{1563,0x714c4bac38fea},{1563,0x750958058079d},{1563,0x7d096bc0ace17},{1563,0x81aec42c9a26e},{1563,0x8c4929b543a6b},{1563,0x94dda4e2c76dc},{1563,0x97c74721ea52c},{1563,0x9a8b88b8bcd14},{1563,0x9bceff7ac0279},{1563,0xa30b08b273987},{1563,0xa388fb6506d39},{1563,0xaa402acfd053f},{1563,0xaac509bdf3c34},{1563,0xaecda94e692b4},{1563,0xba949334d36db},{1563,0xbe4242979ba6e},{1563,0xce55753872be3},{1563,0xd1807ce9b84e8},{1563,0xd4c491cab8ed4},{1563,0xd95a26eee6b3d},{1563,0xdd455071043c1},{1563,0xe133d0f415192},{1563,0xe4bd3e0d4cfb0},{1563,0xec352ba995b9f},{1563,0xf1e5e0b2f1b92},{1563,0xf8c0cf03a0491},{1563,0xfd21998b3678f},
{1564,0x11f2d73116f4},{1564,0x78cc1c925120},{1564,0xdfa561f38b4d},{1564,0x1225c8d4ce8fe},{1564,0x1467ea754c579},{1564,0x151a76a1570ae},{1564,0x1566798844d88},{1564,0x1ad57ecb5ffa6},{1564,0x21431321739d2},{1564,0x245654c0d6566},{1564,0x27b0a777873ff},{1564,0x2a8a2452b80dd},{1564,0x2e1e3bcd9ae2b},{1564,0x3de7bd01f617a},{1564,0x3f7e444c86553},{1564,0x4166f8cfd5cb1},{1564,0x4689b4a5fa201},{1564,0x52299d7ddbb68},{1564,0x5bbf869c005ed},{1564,0x5dc98655bd4cf},{1564,0x6079b9119bdd9},{1564,0x63a432c8f5cd6},{1564,0x69696f2d9ee36},{1564,0x750958058079d},{1564,0x799750360aa60},{1564,0x80a940dd62104},{1564,0x81aec42c9a26e},{1564,0x87349e4374c85},{1564,0x8c4929b543a6b},{1564,0x9bceff7ac0279},{1564,0xaac509bdf3c34},{1564,0xab04c4dcc2fcd},{1564,0xab31c957c9caa},{1564,0xaecda94e692b4},{1564,0xb9d4db9aa9609},{1564,0xbac8cd14ca007},{1564,0xbe4242979ba6e},{1564,0xc1f68f895e82b},{1564,0xce55753872be3},{1564,0xd17fc0527450f},{1564,0xd1807ce9b84e8},{1564,0xd4c491cab8ed4},{1564,0xd63992e9c3dcb},{1564,0xd95a26eee6b3d},{1564,0xe4bd3e0d4cfb0},{1564,0xf1e5e0b2f1b92},{1564,0xf7fabbc825a51},{1564,0xf8c0cf03a0491},
{1565,0x11f2d73116f4},{1565,0x23829cde1894},{1565,0x78cc1c925120},{1565,0xc6a286e922fe},{1565,0xdfa561f38b4d},{1565,0x1467ea754c579},{1565,0x151a76a1570ae},{1565,0x1566798844d88},{1565,0x1ad57ecb5ffa6},{1565,0x21431321739d2},{1565,0x245654c0d6566},{1565,0x27b0a777873ff},{1565,0x288a3443b320a},{1565,0x2e1e3bcd9ae2b},{1565,0x2fcaf042298a9},{1565,0x3abe1d95b0933},{1565,0x4166f8cfd5cb1},{1565,0x4689b4a5fa201},{1565,0x5a43bd5bf8757},{1565,0x5bbf869c005ed},{1565,0x618ade7e37f8f},{1565,0x69696f2d9ee36},{1565,0x74ef843607fc1},{1565,0x750958058079d},{1565,0x799750360aa60},{1565,0x80a940dd62104},{1565,0x81aec42c9a26e},{1565,0x8489c96711a8b},{1565,0x8c6c359db6848},{1565,0x8e61a3c7defe6},{1565,0x976f19d014ed3},{1565,0x9bceff7ac0279},{1565,0xa1d2a9dafc54c},{1565,0xaac509bdf3c34},{1565,0xbac8cd14ca007},{1565,0xc1f68f895e82b},{1565,0xce55753872be3},{1565,0xd17fc0527450f},{1565,0xd1807ce9b84e8},{1565,0xd4c491cab8ed4},{1565,0xd63992e9c3dcb},{1565,0xd95a26eee6b3d},{1565,0xe21a7537c0b09},{1565,0xe4bd3e0d4cfb0},{1565,0xf1e5e0b2f1b92},{1565,0xf3ad1945de78e},{1565,0xf4e8594c31f0a},{1565,0xf7fabbc825a51},
{1566,0x11f2d73116f4},{1566,0x23829cde1894},{1566,0x88a9e2841900},{1566,0xabb2616b85a0},{1566,0x151a76a1570ae},{1566,0x1566798844d88},{1566,0x21431321739d2},{1566,0x288a3443b320a},{1566,0x400db38b11b0b},{1566,0x4166f8cfd5cb1},{1566,0x4689b4a5fa201},{1566,0x5a43bd5bf8757},{1566,0x618ade7e37f8f},{1566,0x63a432c8f5cd6},{1566,0x6df59e4154d18},{1566,0x750958058079d},{1566,0x80a940dd62104},{1566,0x81aec42c9a26e},{1566,0x8489c96711a8b},{1566,0x8c6c359db6848},{1566,0x8e61a3c7defe6},{1566,0x9445dfa2e4e9d},{1566,0x976f19d014ed3},{1566,0x9bceff7ac0279},{1566,0xa151c41eb0375},{1566,0xa1d2a9dafc54c},{1566,0xaac509bdf3c34},{1566,0xbac8cd14ca007},{1566,0xc1f68f895e82b},{1566,0xc93db0ab9e063},{1566,0xce55753872be3},{1566,0xd1807ce9b84e8},{1566,0xd4c491cab8ed4},{1566,0xdcb59404ac4c1},{1566,0xe21a7537c0b09},{1566,0xe4bd3e0d4cfb0},{1566,0xe6daa8d5f9877},{1566,0xf7fabbc825a51},{1566,0xfaf739c3e35b0},
{1567,0x11f2d73116f4},{1567,0x1efc61189797},{1567,0x88a9e2841900},{1567,0xa6b7c3035521},{1567,0x136b0ab32bc2f},{1567,0x151a76a1570ae},{1567,0x21431321739d2},{1567,0x288a3443b320a},{1567,0x372fac6fd713b},{1567,0x4166f8cfd5cb1},{1567,0x4689b4a5fa201},{1567,0x50c3561f86c7b},{1567,0x5f322559a5ee0},{1567,0x618ade7e37f8f},{1567,0x620867f2873a3},{1567,0x63a432c8f5cd6},{1567,0x6df59e4154d18},{1567,0x750958058079d},{1567,0x7ea763073606f},{1567,0x80a940dd62104},{1567,0x81aec42c9a26e},{1567,0x8489c96711a8b},{1567,0x855254bdb9e8a},{1567,0x8c6c359db6848},{1567,0x8e61a3c7defe6},{1567,0x9445dfa2e4e9d},{1567,0x976f19d014ed3},{1567,0x9bceff7ac0279},{1567,0x9e2f1949dc930},{1567,0xa1d2a9dafc54c},{1567,0xc154d4285cd78},{1567,0xc1f68f895e82b},{1567,0xcb07bc7ff39a4},{1567,0xce55753872be3},{1567,0xdcb59404ac4c1},{1567,0xe21a7537c0b09},{1567,0xe4bd3e0d4cfb0},{1567,0xeaa40243d3bc0},{1567,0xfbc48ac17067b},
{1568,0x11f2d73116f4},{1568,0xa6b7c3035521},{1568,0x151a76a1570ae},{1568,0x1f714ad8e3bc4},{1568,0x20febcce4d951},{1568,0x21431321739d2},{1568,0x23392d951bd3d},{1568,0x24cdcaabb3d58},{1568,0x288a3443b320a},{1568,0x3291ce5b58bcc},{1568,0x4166f8cfd5cb1},{1568,0x443a315c561e6},{1568,0x4689b4a5fa201},{1568,0x477aa2cba37d6},{1568,0x5043b64e56c72},{1568,0x50c3561f86c7b},{1568,0x618ade7e37f8f},{1568,0x620867f2873a3},{1568,0x635ca6c6c7d9d},{1568,0x6df59e4154d18},{1568,0x80a940dd62104},{1568,0x81aec42c9a26e},{1568,0x8489c96711a8b},{1568,0x8e61a3c7defe6},{1568,0x9445dfa2e4e9d},{1568,0xa1271fb3b543e},{1568,0xa1d2a9dafc54c},{1568,0xa652fc4ea3e3e},{1568,0xa9596e2750e64},{1568,0xc024c740cea1d},{1568,0xc154d4285cd78},{1568,0xc1f68f895e82b},{1568,0xcb07bc7ff39a4},{1568,0xce55753872be3},{1568,0xcfe8a26221e7d},{1568,0xdcb59404ac4c1},{1568,0xe21a7537c0b09},{1568,0xe4bd3e0d4cfb0},{1568,0xfbc48ac17067b},{1568,0xfbd6e3291df5b},
{1569,0x2081197595fb},{1569,0x2f38e93ec932},{1569,0xa6b7c3035521},{1569,0x14dfe6685ab26},{1569,0x151a76a1570ae},{1569,0x15d847ad00087},{1569,0x1dbcff8ad7442},{1569,0x288a3443b320a},{1569,0x2d6623ac4a261},{1569,0x3291ce5b58bcc},{1569,0x4166f8cfd5cb1},{1569,0x443a315c561e6},{1569,0x4689b4a5fa201},{1569,0x5043b64e56c72},{1569,0x5d5423b298608},{1569,0x6df59e4154d18},{1569,0x7216de72b9635},{1569,0x7c396b52ea844},{1569,0x80c5e00852367},{1569,0x8383526fcd0c6},{1569,0x8489c96711a8b},{1569,0x84fb978bccd8a},{1569,0x8ba7863452dbe},{1569,0x8e61a3c7defe6},{1569,0x90bd7a1276a12},{1569,0x9445dfa2e4e9d},{1569,0x961bf06c783c3},{1569,0xa2bb8dff44453},{1569,0xa5d87eaeaad54},{1569,0xa74802b4abf76},{1569,0xb0890c26572f5},{1569,0xb8701d974f37c},{1569,0xcb07bc7ff39a4},{1569,0xcc665990a65df},{1569,0xdcb59404ac4c1},{1569,0xe21a7537c0b09},{1569,0xe4bd3e0d4cfb0},{1569,0xf41ee76a99a8d},{1569,0xfaf739c3e35b0},{1569,0xfbc48ac17067b},{1569,0xfbd6e3291df5b},
{1570,0x2f38e93ec932},{1570,0xa1f3b3ed991b},{1570,0x1177416feb874},{1570,0x151a76a1570ae},{1570,0x15d847ad00087},{1570,0x16ac3469fab2c},{1570,0x1dbcff8ad7442},{1570,0x21b7853397956},{1570,0x3291ce5b58bcc},{1570,0x3cda841a6e18e},{1570,0x4166f8cfd5cb1},{1570,0x416ac254d7c1f},{1570,0x443a315c561e6},{1570,0x4689b4a5fa201},{1570,0x4fec729be542d},{1570,0x5043b64e56c72},{1570,0x5f1caa47d5cc5},{1570,0x61166c6c1400c},{1570,0x6df59e4154d18},{1570,0x7216de72b9635},{1570,0x7c396b52ea844},{1570,0x7cce923ad3d6b},{1570,0x8489c96711a8b},{1570,0x84fb978bccd8a},{1570,0x90bd7a1276a12},{1570,0x9de91f26410c3},{1570,0xa03629d59610c},{1570,0xa5d87eaeaad54},{1570,0xa74802b4abf76},{1570,0xb8701d974f37c},{1570,0xc26b019b827ae},{1570,0xcb07bc7ff39a4},{1570,0xd32b1707e6678},{1570,0xdcb59404ac4c1},{1570,0xe21a7537c0b09},{1570,0xe4bd3e0d4cfb0},{1570,0xe6a6e9ed2862c},{1570,0xf41ee76a99a8d},{1570,0xf889420f97d84},{1570,0xfbc48ac17067b},
{1571,0x606f26edbad3},{1571,0xa1f3b3ed991b},{1571,0x1177416feb874},{1571,0x11cbecb8aca5b},{1571,0x12f1d466f6fc9},{1571,0x151a76a1570ae},{1571,0x15d847ad00087},{1571,0x16ac3469fab2c},{1571,0x1dbcff8ad7442},{1571,0x318f3f01b6b03},{1571,0x4166f8cfd5cb1},{1571,0x4fec729be542d},{1571,0x5043b64e56c72},{1571,0x513eb29df4e5e},{1571,0x5f1caa47d5cc5},{1571,0x67e91b7c2f8c0},{1571,0x84fb978bccd8a},{1571,0x8d35148208587},{1571,0x90bd7a1276a12},{1571,0x9a807a2dd1e11},{1571,0xa5d87eaeaad54},{1571,0xb8701d974f37c},{1571,0xbd16055178506},{1571,0xbd4f599576ac2},{1571,0xbe064a3fb2725},{1571,0xc1bbed0ba1690},{1571,0xd242bb69a195c},{1571,0xe21a7537c0b09},{1571,0xe4bd3e0d4cfb0},{1571,0xf1f22f05dfcb7},{1571,0xf41ee76a99a8d},{1571,0xf730fb6ef4dd1},{1571,0xfbc48ac17067b},{1571,0xfc74c09b4f6ba},
{1572,0x606f26edbad3},{1572,0x1177416feb874},{1572,0x13348fb2e89bd},{1572,0x15d847ad00087},{1572,0x16ac3469fab2c},{1572,0x1dbcff8ad7442},{1572,0x3cda841a6e18e},{1572,0x443105287f576},{1572,0x468d25396aaab},{1572,0x4bdf2c8cfd224},{1572,0x5043b64e56c72},{1572,0x5194dc34c151f},{1572,0x573d3ccea6f2a},{1572,0x5f1caa47d5cc5},{1572,0x61d5dd53bd5aa},{1572,0x67634d82b119b},{1572,0x67e91b7c2f8c0},{1572,0x84fb978bccd8a},{1572,0x8d35148208587},{1572,0x90bd7a1276a12},{1572,0x9a807a2dd1e11},{1572,0xa0c46b83800cb},{1572,0xa5d87eaeaad54},{1572,0xad7d98b45e786},{1572,0xb0772af492197},{1572,0xb8701d974f37c},{1572,0xbd16055178506},{1572,0xbd4f599576ac2},{1572,0xbe064a3fb2725},{1572,0xc0b82c138e222},{1572,0xc1bbed0ba1690},{1572,0xca3db756464fa},{1572,0xd4538bf445cb8},{1572,0xdb47c627a5255},{1572,0xdcef0b1bfa57e},{1572,0xe921c7cea69fe},{1572,0xf41ee76a99a8d},{1572,0xfc1bce73e1ec0},{1572,0xff18789566d84},
{1573,0x839374f887fa},{1573,0x13348fb2e89bd},{1573,0x15d847ad00087},{1573,0x2856303c221e3},{1573,0x3cda841a6e18e},{1573,0x5043b64e56c72},{1573,0x5194dc34c151f},{1573,0x573d3ccea6f2a},{1573,0x5a1c000260cbd},{1573,0x5ac5a25f153b5},{1573,0x5b4e5998400a9},{1573,0x61d5dd53bd5aa},{1573,0x67e91b7c2f8c0},{1573,0x6a2566807d7ab},{1573,0x73fd5b708ec9e},{1573,0x7504c1eb95165},{1573,0x79fd204e9c959},{1573,0x84fb978bccd8a},{1573,0x89d4da1cbbb06},{1573,0x8c112521099f1},{1573,0x8d35148208587},{1573,0x90bd7a1276a12},{1573,0x99ac93eadacb4},{1573,0x9a807a2dd1e11},{1573,0x9edf10542fc3e},{1573,0x9f1d89636a8cc},{1573,0xa0c46b83800cb},{1573,0xa5d87eaeaad54},{1573,0xa9844db8f9e61},{1573,0xad7d98b45e786},{1573,0xb0772af492197},{1573,0xb71fbc82cb124},{1573,0xb95c07871900f},{1573,0xbac3117463c41},{1573,0xbd16055178506},{1573,0xbe064a3fb2725},{1573,0xc0b82c138e222},{1573,0xca3db756464fa},{1573,0xd4538bf445cb8},{1573,0xdb47c627a5255},{1573,0xe6fdd5f82e26e},{1573,0xf41ee76a99a8d},{1573,0xff18789566d84},
{1574,0xd120bd91aeb},{1574,0x13348fb2e89bd},{1574,0x15d847ad00087},{1574,0x1809922e8f3f1},{1574,0x1f18b5d8cf83e},{1574,0x2856303c221e3},{1574,0x2a0c31ee42d0f},{1574,0x2ac67f48010f5},{1574,0x2cba2a41b3808},{1574,0x389350a2a0098},{1574,0x42a5b712d0ff9},{1574,0x5043b64e56c72},{1574,0x73fd5b708ec9e},{1574,0x7504c1eb95165},{1574,0x79fd204e9c959},{1574,0x825d6ac182b58},{1574,0x82a636547912f},{1574,0x84fb978bccd8a},{1574,0x89d4da1cbbb06},{1574,0x8c112521099f1},{1574,0x90bd7a1276a12},{1574,0x99ac93eadacb4},{1574,0x9a807a2dd1e11},{1574,0x9edf10542fc3e},{1574,0x9f1d89636a8cc},{1574,0xa5d87eaeaad54},{1574,0xa9844db8f9e61},{1574,0xad7d98b45e786},{1574,0xb17742001192d},{1574,0xbbdda80552640},{1574,0xbd16055178506},{1574,0xbe064a3fb2725},{1574,0xc8b4c8a2df0df},{1574,0xc933c155381bc},{1574,0xca3db756464fa},{1574,0xcaf0cdfe5aa8c},{1574,0xcfa751357e748},{1574,0xd89242673ea56},
{1575,0xc35312de9d10},{1575,0x15d847ad00087},{1575,0x2369b52204fd9},{1575,0x2856303c221e3},{1575,0x2aa9241936aa8},{1575,0x2ac67f48010f5},{1575,0x2c1d0edbcb2fc},{1575,0x2cba2a41b3808},{1575,0x33416ef024187},{1575,0x4a1d49a3c928c},{1575,0x5043b64e56c72},{1575,0x60840156b1a45},{1575,0x6246560e0a590},{1575,0x6db2272bb7739},{1575,0x73fd5b708ec9e},{1575,0x7504c1eb95165},{1575,0x79fd204e9c959},{1575,0x82a636547912f},{1575,0x898d7269fcab5},{1575,0x89d4da1cbbb06},{1575,0x8c112521099f1},{1575,0x90bd7a1276a12},{1575,0x97ed81baf096f},{1575,0x99ac93eadacb4},{1575,0x9a807a2dd1e11},{1575,0x9f1d89636a8cc},{1575,0xa50bb7b05e08b},{1575,0xa5d87eaeaad54},{1575,0xa64d910be4829},{1575,0xa66ccd9381e70},{1575,0xad7d98b45e786},{1575,0xbbdda80552640},{1575,0xbc5374cc8c326},{1575,0xbd16055178506},{1575,0xc82fbea4864b5},{1575,0xc933c155381bc},{1575,0xcfa751357e748},{1575,0xd2ba9e4d99692},{1575,0xd89242673ea56},{1575,0xdff24f45ac891},{1575,0xe7c50f6f4f5a2},{1575,0xeffb6f5e5b459},{1575,0xf03fff1772633},
{1576,0x75845daee82e},{1576,0xc35312de9d10},{1576,0x15d847ad00087},{1576,0x18b27a759405d},{1576,0x2856303c221e3},{1576,0x2aa9241936aa8},{1576,0x2c1d0edbcb2fc},{1576,0x3647e76a9d681},{1576,0x3b2e2481d8d66},{1576,0x40735b6f5007b},{1576,0x431928be43334},{1576,0x500d35262cfcd},{1576,0x5b4e5998400a9},{1576,0x70e1704e276fa},{1576,0x73169291b5357},{1576,0x73df94b5577d7},{1576,0x73fd5b708ec9e},{1576,0x7504c1eb95165},{1576,0x79fd204e9c959},{1576,0x8c112521099f1},{1576,0x97515314dda0c},{1576,0x97ed81baf096f},{1576,0x988e6e68b3d3e},{1576,0x9c926adabee06},{1576,0x9f1d89636a8cc},{1576,0xa2a5eef3d8d57},{1576,0xa5d87eaeaad54},{1576,0xa64d910be4829},{1576,0xa9732dc0e80cf},{1576,0xb221effe500d3},{1576,0xbbdda80552640},{1576,0xbc5374cc8c326},{1576,0xbd16055178506},{1576,0xc82fbea4864b5},{1576,0xc933c155381bc},{1576,0xcfa751357e748},{1576,0xd2ba9e4d99692},{1576,0xdfcdce4fb4311},{1576,0xea57086d9048b},{1576,0xeffb6f5e5b459},
{1577,0xbdc72c8bf0},{1577,0xc35312de9d10},{1577,0x1273d5d1beeb6},{1577,0x15d847ad00087},{1577,0x2856303c221e3},{1577,0x2c1d0edbcb2fc},{1577,0x2fa5fc4e861ea},{1577,0x3647e76a9d681},{1577,0x431928be43334},{1577,0x46a65ec7f94df},{1577,0x5b4e5998400a9},{1577,0x6092934e3f1b6},{1577,0x73169291b5357},{1577,0x73df94b5577d7},{1577,0x73fd5b708ec9e},{1577,0x79fd204e9c959},{1577,0x856abadbaba57},{1577,0x86b824cb480be},{1577,0x924fc9c4deb98},{1577,0x97ed81baf096f},{1577,0x988e6e68b3d3e},{1577,0x9c926adabee06},{1577,0x9f1d89636a8cc},{1577,0xa5b40eee587c7},{1577,0xaa33ac332af89},{1577,0xb18900f8083d8},{1577,0xbbdda80552640},{1577,0xbd0a6c9a1709d},{1577,0xbd16055178506},{1577,0xcfa751357e748},{1577,0xdb4f455bb68ea},{1577,0xdfcdce4fb4311},{1577,0xe9924088f39e4},{1577,0xea57086d9048b},{1577,0xf27e76ed8472d},{1577,0xfaa5e56d789cf},{1577,0xfaadb29c3265c},
{1578,0xbdc72c8bf0},{1578,0xc35312de9d10},{1578,0xd891f2ddd81f},{1578,0xeba3e7b739e0},{1578,0x1573d71dd4c66},{1578,0x2192829885f92},{1578,0x2856303c221e3},{1578,0x28bac7bf5bd5d},{1578,0x2b6e686113550},{1578,0x2c1d0edbcb2fc},{1578,0x34a4242b622d6},{1578,0x3647e76a9d681},{1578,0x4f427d7964454},{1578,0x5712c14d83bda},{1578,0x6092934e3f1b6},{1578,0x6944ee37a68b6},{1578,0x81304d4e0fc3e},{1578,0x856abadbaba57},{1578,0x86b824cb480be},{1578,0x924fc9c4deb98},{1578,0x97ed81baf096f},{1578,0x9c926adabee06},{1578,0x9f1d89636a8cc},{1578,0xb18900f8083d8},{1578,0xbd0a6c9a1709d},{1578,0xbd16055178506},{1578,0xd55d1610592dc},{1578,0xd85468addcb6d},{1578,0xde9112bfd443f},{1578,0xdfcdce4fb4311},{1578,0xf27e76ed8472d},{1578,0xf340a0cadc0f3},{1578,0xfaadb29c3265c},
{1579,0xc35312de9d10},{1579,0xdd301afcbcd5},{1579,0x2698b0ca5f7c8},{1579,0x2c1d0edbcb2fc},{1579,0x2d741c82e8379},{1579,0x2dbbd753a70b2},{1579,0x34a4242b622d6},{1579,0x3647e76a9d681},{1579,0x3abf0131fa099},{1579,0x459973febc09e},{1579,0x4f427d7964454},{1579,0x55a654ab193f3},{1579,0x5712c14d83bda},{1579,0x586b24ce4af14},{1579,0x64a64a8e39307},{1579,0x6944ee37a68b6},{1579,0x69e0d6c7665d1},{1579,0x86b824cb480be},{1579,0x924fc9c4deb98},{1579,0x97ed81baf096f},{1579,0x9c926adabee06},{1579,0xb221effe500d3},{1579,0xc139dea1c6834},{1579,0xd55d1610592dc},{1579,0xdfcdce4fb4311},{1579,0xe22f99ed9c1e9},{1579,0xf1a4958d9ed40},{1579,0xf27e76ed8472d},{1579,0xf340a0cadc0f3},{1579,0xfaadb29c3265c},
{1580,0x73a4389e3a56},{1580,0xc35312de9d10},{1580,0xf5535fef2084},{1580,0x1dba345e938f4},{1580,0x2dbbd753a70b2},{1580,0x3647e76a9d681},{1580,0x3abf0131fa099},{1580,0x3f5c62aabda8e},{1580,0x4f427d7964454},{1580,0x516442cd4a04a},{1580,0x55a654ab193f3},{1580,0x5712c14d83bda},{1580,0x586b24ce4af14},{1580,0x62b0cf1eec674},{1580,0x64a64a8e39307},{1580,0x6944ee37a68b6},{1580,0x6ccdb90e2d5a9},{1580,0x70c9239f217f6},{1580,0x8c63e20e965f4},{1580,0x953f666cb6875},{1580,0x97ed81baf096f},{1580,0xa14f57a7568cb},{1580,0xab9260bdded1a},{1580,0xb221effe500d3},{1580,0xb3c2b469d38d4},{1580,0xb623dedd2fa9b},{1580,0xc139dea1c6834},{1580,0xc1b502cfa900e},{1580,0xcd2a3456f4c6a},{1580,0xdfcdce4fb4311},{1580,0xeafe7bfbf47a3},{1580,0xf27e76ed8472d},{1580,0xf6922e2d7e87e},{1580,0xfaadb29c3265c},
{1581,0x142a6f628adc},{1581,0x6d5daea4c5ae},{1581,0xbce6c6ea0ffe},{1581,0xc35312de9d10},{1581,0xe82a0207d871},{1581,0x1cf88440c86e1},{1581,0x1dba345e938f4},{1581,0x21c1a08c711c0},{1581,0x2a7754fed7091},{1581,0x2dbbd753a70b2},{1581,0x3e7f2a6685a83},{1581,0x492072e7ae4a0},{1581,0x516442cd4a04a},{1581,0x5450a871321a2},{1581,0x5712c14d83bda},{1581,0x586b24ce4af14},{1581,0x6944ee37a68b6},{1581,0x71bb51ae0d0e7},{1581,0x8c63e20e965f4},{1581,0x8edbfae4d98c2},{1581,0x90025ad24b036},{1581,0x932d79c48f6de},{1581,0x953f666cb6875},{1581,0x96ffd0fe6b0c6},{1581,0xa052685386dcb},{1581,0xa77ea97de4bc9},{1581,0xb3c2b469d38d4},{1581,0xb623dedd2fa9b},{1581,0xc1b502cfa900e},{1581,0xcd2a3456f4c6a},{1581,0xeafe7bfbf47a3},{1581,0xeb1ccab14a8ef},{1581,0xf27e76ed8472d},{1581,0xf6922e2d7e87e},{1581,0xf7062390bba28},
{1582,0x3d387a47a827},{1582,0xafa4102aba1b},{1582,0xc35312de9d10},{1582,0xe82a0207d871},{1582,0xf5535fef2084},{1582,0x1496dab7591f8},{1582,0x1cf88440c86e1},{1582,0x1dba345e938f4},{1582,0x251e994e631d1},{1582,0x255a2dca37bc9},{1582,0x2a681ce44937a},{1582,0x2a7754fed7091},{1582,0x2dbbd753a70b2},{1582,0x321cc89e75f89},{1582,0x361d80dd1659a},{1582,0x36ad162531497},{1582,0x3c6a30ecfa6cd},{1582,0x3e7f2a6685a83},{1582,0x43bf52bc81b6c},{1582,0x4f427d7964454},{1582,0x51e657325142e},{1582,0x5712c14d83bda},{1582,0x586b24ce4af14},{1582,0x5ecacb546c52c},{1582,0x6407dcc6096f1},{1582,0x6944ee37a68b6},{1582,0x71bb51ae0d0e7},{1582,0x7df82cc92d89c},{1582,0x8a263146090b9},{1582,0x8c63e20e965f4},{1582,0x8edbfae4d98c2},{1582,0x8f473b921f65a},{1582,0x932d79c48f6de},{1582,0x96ffd0fe6b0c6},{1582,0xa052685386dcb},{1582,0xa3131cd7bd569},{1582,0xa70c726f1fb01},{1582,0xb2fd6d3da2441},{1582,0xbe580a0db6ffd},{1582,0xc1b502cfa900e},{1582,0xc5a87227bdab7},{1582,0xcd2a3456f4c6a},{1582,0xdad51e7e278e7},{1582,0xf158302724b21},{1582,0xf2716848739b8},{1582,0xf6e3bc361667e},
{1583,0xafa4102aba1b},{1583,0xe82a0207d871},{1583,0xf5535fef2084},{1583,0x1dba345e938f4},{1583,0x255a2dca37bc9},{1583,0x36ad162531497},{1583,0x3f9d69dfab1bc},{1583,0x4f427d7964454},{1583,0x51e657325142e},{1583,0x532a837eae8a5},{1583,0x5712c14d83bda},{1583,0x586b24ce4af14},{1583,0x5ecacb546c52c},{1583,0x6407dcc6096f1},{1583,0x6944ee37a68b6},{1583,0x71bb51ae0d0e7},{1583,0x792acd2890cde},{1583,0x7ca3a1995ffb3},{1583,0x7df82cc92d89c},{1583,0x8874c389bb3eb},{1583,0x8c63e20e965f4},{1583,0x932d79c48f6de},{1583,0x96ffd0fe6b0c6},{1583,0x9809addde2072},{1583,0x98d26d61f6e41},{1583,0xa3131cd7bd569},{1583,0xae38b7f48a162},{1583,0xb2fd6d3da2441},{1583,0xbdb17625bf6e6},{1583,0xbe580a0db6ffd},{1583,0xc4d721b5c06d9},{1583,0xc5a87227bdab7},{1583,0xccfb6c86e9df3},{1583,0xcd2a3456f4c6a},{1583,0xdad51e7e278e7},{1583,0xe4a6663d8bf88},{1583,0xe913d52ae62ee},{1583,0xef2eb5be134f1},{1583,0xf158302724b21},{1583,0xf6e3bc361667e},
{1584,0xe82a0207d871},{1584,0xf0df842a5b6c},{1584,0x2510526c8a7b8},{1584,0x255a2dca37bc9},{1584,0x34a4209ecce96},{1584,0x4f427d7964454},{1584,0x532a837eae8a5},{1584,0x5ecacb546c52c},{1584,0x63c90348379ad},{1584,0x6407dcc6096f1},{1584,0x6851599534a69},{1584,0x7055bf2fb4b52},{1584,0x71bb51ae0d0e7},{1584,0x78fc228c7de05},{1584,0x792acd2890cde},{1584,0x7b79f52a1b331},{1584,0x8cd3055e752c1},{1584,0x96ffd0fe6b0c6},{1584,0x98d26d61f6e41},{1584,0xa3131cd7bd569},{1584,0xb2fd6d3da2441},{1584,0xbc52efb2aff7c},{1584,0xbdb17625bf6e6},{1584,0xc5a87227bdab7},{1584,0xccfb6c86e9df3},{1584,0xcd2a3456f4c6a},{1584,0xd9d5a3751d0f6},{1584,0xdad51e7e278e7},{1584,0xe4a6663d8bf88},{1584,0xe913d52ae62ee},{1584,0xf158302724b21},{1584,0xf6e3bc361667e},
{1585,0xf0df842a5b6c},{1585,0x1f4bb366bd492},{1585,0x2070086ae9e4c},{1585,0x216543658f056},{1585,0x255a2dca37bc9},{1585,0x355c54727aaf7},{1585,0x4d3b0cb6b4722},{1585,0x4f427d7964454},{1585,0x5ecacb546c52c},{1585,0x6407dcc6096f1},{1585,0x7055bf2fb4b52},{1585,0x71bb51ae0d0e7},{1585,0x792acd2890cde},{1585,0x849693fd6de8a},{1585,0x96fce5de79290},{1585,0x96ffd0fe6b0c6},{1585,0xa0288b6fedd05},{1585,0xa3131cd7bd569},{1585,0xb2fd6d3da2441},{1585,0xbdb17625bf6e6},{1585,0xbe00dd8e443d9},{1585,0xc18fa5b20cc47},{1585,0xc56dd53e5a1a8},{1585,0xc5a87227bdab7},{1585,0xccfb6c86e9df3},{1585,0xcf5b8091e2d6c},{1585,0xd285de9963063},{1585,0xdad51e7e278e7},{1585,0xf158302724b21},
{1586,0xf0df842a5b6c},{1586,0x171a85f5dc311},{1586,0x216543658f056},{1586,0x233acae90cc07},{1586,0x268270b5b110c},{1586,0x2b101134a649f},{1586,0x498c9a0ef5b7e},{1586,0x4d3b0cb6b4722},{1586,0x532a837eae8a5},{1586,0x5ba52d2ea61a9},{1586,0x5ecacb546c52c},{1586,0x6407dcc6096f1},{1586,0x6e617c0eccee4},{1586,0x71bb51ae0d0e7},{1586,0x96fce5de79290},{1586,0x96ffd0fe6b0c6},{1586,0x97039aaaba11c},{1586,0xa0288b6fedd05},{1586,0xa3131cd7bd569},{1586,0xa569f1765cb4d},{1586,0xa7f5245e5a2ce},{1586,0xa8476901f9998},{1586,0xa9825f94d382f},{1586,0xbdb17625bf6e6},{1586,0xc18fa5b20cc47},{1586,0xc42aeff55cd3c},{1586,0xc56dd53e5a1a8},{1586,0xc5a87227bdab7},{1586,0xd285de9963063},{1586,0xded38055e6249},{1586,0xe45f51a0c4cb0},{1586,0xe98cd7c9f4645},{1586,0xf97c10b66f756},{1586,0xfc999fa084f54},
{1587,0xa5e4366536fc},{1587,0xf0df842a5b6c},{1587,0x171a85f5dc311},{1587,0x216543658f056},{1587,0x268270b5b110c},{1587,0x26c7a6a4d35ff},{1587,0x2b101134a649f},{1587,0x4d3b0cb6b4722},{1587,0x50aff653ffe89},{1587,0x532a837eae8a5},{1587,0x55f5c61e5a9e9},{1587,0x5ecacb546c52c},{1587,0x6e617c0eccee4},{1587,0x74313ed3c0e15},{1587,0x764fdb7359873},{1587,0x7a9846032c714},{1587,0x96fce5de79290},{1587,0xa0288b6fedd05},{1587,0xa3131cd7bd569},{1587,0xa48095b258f9e},{1587,0xaa5a88683cc01},{1587,0xb1b5678250793},{1587,0xbdb17625bf6e6},{1587,0xc18fa5b20cc47},{1587,0xc42aeff55cd3c},{1587,0xce68e56185829},{1587,0xcfd65e3c2125e},{1587,0xd10863e3421cb},{1587,0xd25a74ce2ffe3},{1587,0xd697c9a62bc65},{1587,0xd9f6270f93c8d},{1587,0xded38055e6249},{1587,0xe98cd7c9f4645},{1587,0xecc543cf97c1b},{1587,0xf97c10b66f756},{1587,0xfc999fa084f54},
{1588,0x2ccd10e0613b},{1588,0xa5e4366536fc},{1588,0xf0df842a5b6c},{1588,0x1e10bcd3e35fb},{1588,0x216543658f056},{1588,0x2b101134a649f},{1588,0x32cc704d40f61},{1588,0x3fb5efc5886bd},{1588,0x4d3b0cb6b4722},{1588,0x50aff653ffe89},{1588,0x598682c2a8368},{1588,0x5ae51f25d42be},{1588,0x5c3114a204173},{1588,0x5cfed1723206d},{1588,0x5ecacb546c52c},{1588,0x63c98e345b715},{1588,0x6ac26ff1343fe},{1588,0x6e617c0eccee4},{1588,0x74313ed3c0e15},{1588,0x764fdb7359873},{1588,0x7a9846032c714},{1588,0x96fce5de79290},{1588,0x991e7b6a68f07},{1588,0xa0288b6fedd05},{1588,0xa3131cd7bd569},{1588,0xa48095b258f9e},{1588,0xab8fac7c56970},{1588,0xbdb17625bf6e6},{1588,0xc18fa5b20cc47},{1588,0xcfd65e3c2125e},{1588,0xd1c8b71aee3ad},{1588,0xd25a74ce2ffe3},{1588,0xd9f6270f93c8d},{1588,0xded38055e6249},{1588,0xe98cd7c9f4645},{1588,0xeb7fade14077c},{1588,0xed7283f88c8b3},{1588,0xee43dbf769e63},{1588,0xf97c10b66f756},
{1589,0x2ccd10e0613b},{1589,0x35538127c078},{1589,0x5702c154cab5},{1589,0x782189b336ae},{1589,0x111cc25fef49f},{1589,0x18705a0e02404},{1589,0x1e10bcd3e35fb},{1589,0x264495239617b},{1589,0x2b101134a649f},{1589,0x4920fdd3d2208},{1589,0x4d3b0cb6b4722},{1589,0x50aff653ffe89},{1589,0x597a4bc84652b},{1589,0x5ae51f25d42be},{1589,0x5c3114a204173},{1589,0x5ecacb546c52c},{1589,0x63c98e345b715},{1589,0x6ac26ff1343fe},{1589,0x6e617c0eccee4},{1589,0x764fdb7359873},{1589,0x90432a4810874},{1589,0x96fce5de79290},{1589,0x9befc092b325d},{1589,0xa0288b6fedd05},{1589,0xa7f5245e5a2ce},{1589,0xb7db22884a5b6},{1589,0xbdb17625bf6e6},{1589,0xce02c7473514e},{1589,0xcfd65e3c2125e},{1589,0xd1c8b71aee3ad},{1589,0xd9f6270f93c8d},{1589,0xe2a650cbcdf53},{1589,0xed7283f88c8b3},{1589,0xee43dbf769e63},{1589,0xf97c10b66f756},
{1590,0x782189b336ae},{1590,0xcf3ab81f1226},{1590,0x111cc25fef49f},{1590,0x167d83f6b62cd},{1590,0x18705a0e02404},{1590,0x1e10bcd3e35fb},{1590,0x264495239617b},{1590,0x2b101134a649f},{1590,0x3de003c453194},{1590,0x4920fdd3d2208},{1590,0x50aff653ffe89},{1590,0x5b3c8e9d3c2cc},{1590,0x637fe8e3acb7e},{1590,0x643aa19ae1df9},{1590,0x6e617c0eccee4},{1590,0x764fdb7359873},{1590,0x784329e089a17},{1590,0x96fce5de79290},{1590,0x99ab238fe6eee},{1590,0xa14e874520caf},{1590,0xb7db22884a5b6},{1590,0xb8f8a1456e059},{1590,0xbdb17625bf6e6},{1590,0xd1c8b71aee3ad},{1590,0xd93e5783f78d9},{1590,0xd9f6270f93c8d},{1590,0xdcf3c8ea25728},{1590,0xea98ccf06e701},{1590,0xf7731b300b155},{1590,0xffa2f2f2357f6},
{1591,0x6d9bdbc67bba},{1591,0x782189b336ae},{1591,0xb9f8bc1f5b92},{1591,0xcf3ab81f1226},{1591,0x18705a0e02404},{1591,0x1e10bcd3e35fb},{1591,0x203bb26b328e0},{1591,0x3de003c453194},{1591,0x4747fd0c2980f},{1591,0x50aff653ffe89},{1591,0x5a17ef9bd6504},{1591,0x637fe8e3acb7e},{1591,0x752d8cf1f36bc},{1591,0x81f803f7a15c0},{1591,0x96fce5de79290},{1591,0xa14e874520caf},{1591,0xa93f3ec925e2e},{1591,0xaebfb3225ff52},{1591,0xb7db22884a5b6},{1591,0xbdb17625bf6e6},{1591,0xc65f9f26bf5b1},{1591,0xd1c8b71aee3ad},{1591,0xd93e5783f78d9},{1591,0xdcf3c8ea25728},{1591,0xde30c205ae557},{1591,0xe0e07669d2d29},{1591,0xe2ed6c7dbf809},{1591,0xeeebe9ea010f3},{1591,0xf7731b300b155},{1591,0xffa2f2f2357f6},
{1592,0x6d9bdbc67bba},{1592,0x782189b336ae},{1592,0x8f936baf85c1},{1592,0x1e10bcd3e35fb},{1592,0x21a817eccfe25},{1592,0x2a06f65f9cc4e},{1592,0x41be3350a06f5},{1592,0x4747fd0c2980f},{1592,0x4b378469b6731},{1592,0x50aff653ffe89},{1592,0x5a17ef9bd6504},{1592,0x5fafa20c82155},{1592,0x61bd5725200a4},{1592,0x767cfa858e997},{1592,0x7fb7d4bb2feee},{1592,0x81f803f7a15c0},{1592,0x839285c6b4752},{1592,0x8d75d218748a1},{1592,0x96fce5de79290},{1592,0xa14e874520caf},{1592,0xa93f3ec925e2e},{1592,0xaebfb3225ff52},{1592,0xb7db22884a5b6},{1592,0xbdb17625bf6e6},{1592,0xc21df9e17025c},{1592,0xd1c8b71aee3ad},{1592,0xd7fcbc904e482},{1592,0xe2ed6c7dbf809},{1592,0xeeebe9ea010f3},{1592,0xf0ae2cbef6e94},{1592,0xf453f4da14a91},{1592,0xf765086cc0432},{1592,0xf7731b300b155},{1592,0xfdbbee21eb10b},{1592,0xffa2f2f2357f6},
{1593,0x391f3b4e0bc3},{1593,0x782189b336ae},{1593,0x21a817eccfe25},{1593,0x2a06f65f9cc4e},{1593,0x30855229b102e},{1593,0x357d23d3b97a5},{1593,0x3bb129491987a},{1593,0x4b378469b6731},{1593,0x50aff653ffe89},{1593,0x5fafa20c82155},{1593,0x61bd5725200a4},{1593,0x64d0093e51c85},{1593,0x72f8a714e2102},{1593,0x7fb7d4bb2feee},{1593,0x807f14a8d1702},{1593,0x8ccc3cd6b532d},{1593,0x8ed9f1ef5327c},{1593,0xa14e874520caf},{1593,0xa1554fcce0c43},{1593,0xa735f23af57ca},{1593,0xbdb17625bf6e6},{1593,0xc19abc5c74fa4},{1593,0xc21df9e17025c},{1593,0xd1c8b71aee3ad},{1593,0xd7fcbc904e482},{1593,0xe184024a67d9c},{1593,0xe2ed6c7dbf809},{1593,0xeeebe9ea010f3},{1593,0xf7731b300b155},{1593,0xfdbbee21eb10b},{1593,0xffa2f2f2357f6},
{1594,0x15b0246dff07},{1594,0x782189b336ae},{1594,0x256cf860851e9},{1594,0x35e02714cd7da},{1594,0x4b378469b6731},{1594,0x50aff653ffe89},{1594,0x546c6714d7c6e},{1594,0x5fafa20c82155},{1594,0x64d0093e51c85},{1594,0x72f8a714e2102},{1594,0x767d2cbecdc44},{1594,0x7bf2f4477ab2a},{1594,0x8ccc3cd6b532d},{1594,0x9a67185abd0f8},{1594,0xa14e874520caf},{1594,0xa1554fcce0c43},{1594,0xa735f23af57ca},{1594,0xab0342618816d},{1594,0xadf08ac3a3a79},{1594,0xb09deb82cbe45},{1594,0xc21df9e17025c},{1594,0xcc64357e75ecc},{1594,0xd278f02e7046b},{1594,0xe05d38e4d7a71},{1594,0xe184024a67d9c},{1594,0xe2ed6c7dbf809},{1594,0xe6209bc133cce},{1594,0xed2e91b4f54ca},{1594,0xeeebe9ea010f3},{1594,0xf7731b300b155},{1594,0xfdbbee21eb10b},
{1595,0x15b0246dff07},{1595,0x782189b336ae},{1595,0x1fc9df8c63f32},{1595,0x35e02714cd7da},{1595,0x363e80912a9ea},{1595,0x3aa7f0fe06ed5},{1595,0x4b378469b6731},{1595,0x50aff653ffe89},{1595,0x546c6714d7c6e},{1595,0x5fafa20c82155},{1595,0x7bf2f4477ab2a},{1595,0x7d6ee801f3cd4},{1595,0x83a2ed7753da9},{1595,0x8813c9106848e},{1595,0x89d6f2ecb3e7e},{1595,0x900af86213f53},{1595,0xa14e874520caf},{1595,0xa296a11194b7b},{1595,0xa735f23af57ca},{1595,0xadf08ac3a3a79},{1595,0xb09deb82cbe45},{1595,0xc21df9e17025c},{1595,0xc910f6e699df0},{1595,0xd05fa9e9f6c5f},{1595,0xdfa5c9e9fbea9},{1595,0xe6209bc133cce},{1595,0xed2e91b4f54ca},{1595,0xeeebe9ea010f3},
{1596,0x7bf88882904d},{1596,0x147f760ab2ed6},{1596,0x1591a43fcd5a5},{1596,0x1b48faf10f9ce},{1596,0x1c04b9dd35691},{1596,0x1fc9df8c63f32},{1596,0x2ae1bed06a9f3},{1596,0x2d14d8ec003b5},{1596,0x2ed26d59f634f},{1596,0x35e02714cd7da},{1596,0x3a1b23509ddd0},{1596,0x425bdfc2dccd0},{1596,0x42efbab3deb03},{1596,0x4548b06e765a4},{1596,0x47139f8eca91a},{1596,0x4b378469b6731},{1596,0x50aff653ffe89},{1596,0x546c6714d7c6e},{1596,0x5fafa20c82155},{1596,0x649ed22c73980},{1596,0x7fb7d4bb2feee},{1596,0x83a2ed7753da9},{1596,0x83b35527f3400},{1596,0x89d6f2ecb3e7e},{1596,0x8ce0769d4ce3d},{1596,0x9a09187f69d8c},{1596,0x9a2118a1dfef2},{1596,0xa296a11194b7b},{1596,0xa2a708c2341d2},{1596,0xb71a3268ce0ae},{1596,0xc21df9e17025c},{1596,0xc910f6e699df0},{1596,0xdfa5c9e9fbea9},{1596,0xe6209bc133cce},{1596,0xeb063dbb68e85},{1596,0xecce6bcc18df8},{1596,0xeeebe9ea010f3},{1596,0xf0d3469e91aca},{1596,0xf9f70dae35d47},{1596,0xfe8fb0244f806},
{1597,0x42a34ac61663},{1597,0x7bf88882904d},{1597,0x147f760ab2ed6},{1597,0x1591a43fcd5a5},{1597,0x17b3a71547fe4},{1597,0x1b48faf10f9ce},{1597,0x1fc9df8c63f32},{1597,0x2ae1bed06a9f3},{1597,0x2cf2816e80e81},{1597,0x2ed26d59f634f},{1597,0x35e02714cd7da},{1597,0x425bdfc2dccd0},{1597,0x4548b06e765a4},{1597,0x459ab6e193557},{1597,0x47139f8eca91a},{1597,0x4b378469b6731},{1597,0x50aff653ffe89},{1597,0x546c6714d7c6e},{1597,0x590d5fb80286e},{1597,0x83a2ed7753da9},{1597,0x83b35527f3400},{1597,0x8b21ab9ccbbf5},{1597,0x8ce0769d4ce3d},{1597,0x9a2118a1dfef2},{1597,0x9ebf31100c641},{1597,0xce9d671500ebe},{1597,0xdaefb159595f4},{1597,0xdfa5c9e9fbea9},{1597,0xdfd9b5e9ca905},{1597,0xe0af3f57f4a24},{1597,0xecce6bcc18df8},{1597,0xeeebe9ea010f3},{1597,0xfe8fb0244f806},
{1598,0x42a34ac61663},{1598,0x7bf88882904d},{1598,0xb9018d1532d4},{1598,0x12a13daa46fe3},{1598,0x147f760ab2ed6},{1598,0x1591a43fcd5a5},{1598,0x171cc1c992a45},{1598,0x1b48faf10f9ce},{1598,0x265e307d726da},{1598,0x2ae1bed06a9f3},{1598,0x2cf2816e80e81},{1598,0x2e5bbc5592fce},{1598,0x2ed26d59f634f},{1598,0x36840c231b0be},{1598,0x425bdfc2dccd0},{1598,0x4548b06e765a4},{1598,0x459ab6e193557},{1598,0x47139f8eca91a},{1598,0x4b378469b6731},{1598,0x50aff653ffe89},{1598,0x546c6714d7c6e},{1598,0x55e5522bc3651},{1598,0x5c0f7714da593},{1598,0x647e02cb34cd2},{1598,0x7def37e37ffcb},{1598,0x83a2ed7753da9},{1598,0x83b35527f3400},{1598,0x8b21ab9ccbbf5},{1598,0x8ce0769d4ce3d},{1598,0x95cfd3d6aca3f},{1598,0xa482c7c4429ad},{1598,0xaee476e6a5468},{1598,0xb4cad0383567c},{1598,0xb7948e38445d6},{1598,0xc2dbccbee77b6},{1598,0xce9d671500ebe},{1598,0xdaefb159595f4},{1598,0xdfa5c9e9fbea9},{1598,0xdfd9b5e9ca905},{1598,0xe0af3f57f4a24},{1598,0xecce6bcc18df8},{1598,0xeeebe9ea010f3},{1598,0xf362bcbd275a0},
{1599,0x42a34ac61663},{1599,0x7bf88882904d},{1599,0x8782bf48a5c7},{1599,0xfb0d714c0a21},{1599,0x1038073a15269},{1599,0x12a13daa46fe3},{1599,0x1591a43fcd5a5},{1599,0x161e608ba547d},{1599,0x1b48faf10f9ce},{1599,0x265e307d726da},{1599,0x2ae1bed06a9f3},{1599,0x2e5bbc5592fce},{1599,0x2ed26d59f634f},{1599,0x3386d25f8f629},{1599,0x36840c231b0be},{1599,0x425bdfc2dccd0},{1599,0x4548b06e765a4},{1599,0x47139f8eca91a},{1599,0x47a5f0249692c},{1599,0x4b378469b6731},{1599,0x55e5522bc3651},{1599,0x599f538d5fa8b},{1599,0x5c0f7714da593},{1599,0x7418abf994069},{1599,0x792383ca21746},{1599,0x7def37e37ffcb},{1599,0x83a2ed7753da9},{1599,0x83b35527f3400},{1599,0x8b21ab9ccbbf5},{1599,0x8ce0769d4ce3d},{1599,0x9a09187f69d8c},{1599,0x9e056584240fd},{1599,0xa482c7c4429ad},{1599,0xaee476e6a5468},{1599,0xb4cad0383567c},{1599,0xb7948e38445d6},{1599,0xbd1299ee0d2aa},{1599,0xc8bc99e9f433a},{1599,0xce9d671500ebe},{1599,0xdfa5c9e9fbea9},{1599,0xe1534c3e2e98a},{1599,0xeba6688cead2d},{1599,0xecce6bcc18df8},{1599,0xf7ee39e3f4fad},
{1600,0x45af4fa2277},{1600,0x2c35f729689e},{1600,0x1007c76e030d5},{1600,0x12a13daa46fe3},{1600,0x1591a43fcd5a5},{1600,0x161e608ba547d},{1600,0x2ae1bed06a9f3},{1600,0x2e5bbc5592fce},{1600,0x3386d25f8f629},{1600,0x341c7dbbaffab},{1600,0x36840c231b0be},{1600,0x37585a5f90abb},{1600,0x4548b06e765a4},{1600,0x47139f8eca91a},{1600,0x47a5f0249692c},{1600,0x4b378469b6731},{1600,0x55e5522bc3651},{1600,0x599f538d5fa8b},{1600,0x5b2f628d7d2ad},{1600,0x66c7f56f7c9da},{1600,0x67b2434a569d0},{1600,0x7418abf994069},{1600,0x79cb5308941b4},{1600,0x7def37e37ffcb},{1600,0x8b21ab9ccbbf5},{1600,0x8ce0769d4ce3d},{1600,0x934dfe5652797},{1600,0x9ec47862c4282},{1600,0xa0b5c0927c22a},{1600,0xa336dfacbc442},{1600,0xa482c7c4429ad},{1600,0xaee476e6a5468},{1600,0xb7948e38445d6},{1600,0xc8bc99e9f433a},{1600,0xcbad007f7a8fc},{1600,0xce9d671500ebe},{1600,0xd1c61234a891d},{1600,0xd67802bca97f3},{1600,0xe1534c3e2e98a},{1600,0xeba6688cead2d},{1600,0xf7ee39e3f4fad},
{1601,0x45af4fa2277},{1601,0x1007c76e030d5},{1601,0x12a13daa46fe3},{1601,0x1591a43fcd5a5},{1601,0x1ca3b5cad8cae},{1601,0x24fccc04ebd4f},{1601,0x2e5bbc5592fce},{1601,0x36840c231b0be},{1601,0x3cb4998ce1cdf},{1601,0x47139f8eca91a},{1601,0x47a5f0249692c},{1601,0x4a75eb58df47b},{1601,0x4e741f05a7f89},{1601,0x55e5522bc3651},{1601,0x599f538d5fa8b},{1601,0x66901a5c2b928},{1601,0x6ff5bc9ccf090},{1601,0x7def37e37ffcb},{1601,0x934dfe5652797},{1601,0x980bab250493f},{1601,0xa336dfacbc442},{1601,0xa482c7c4429ad},{1601,0xaee476e6a5468},{1601,0xb60372eec480b},{1601,0xb7948e38445d6},{1601,0xbfeb6629611f4},{1601,0xc8bc99e9f433a},{1601,0xca34cd34b761b},{1601,0xce9d671500ebe},{1601,0xd67802bca97f3},{1601,0xd8b8e7873687f},{1601,0xe1534c3e2e98a},{1601,0xe1a33744612f6},{1601,0xe6968b9ca8362},{1601,0xeba6688cead2d},{1601,0xf7ee39e3f4fad},{1601,0xfa1ffe058ece3},
{1602,0x45af4fa2277},{1602,0x2c35f729689e},{1602,0x4dc92e64b5d2},{1602,0x973767cf492d},{1602,0xe38a3c9fd740},{1602,0x12a13daa46fe3},{1602,0x1591a43fcd5a5},{1602,0x1797f6e009502},{1602,0x2993e0f6f9eb6},{1602,0x381db5f638984},{1602,0x3cae4bb77e499},{1602,0x41a7a702acc03},{1602,0x47a5f0249692c},{1602,0x4a75eb58df47b},{1602,0x55e5522bc3651},{1602,0x6e6b056f7f2ff},{1602,0x6ff5bc9ccf090},{1602,0x84250f2be1cee},{1602,0x971e3de09f647},{1602,0xa336dfacbc442},{1602,0xad6ae092413e3},{1602,0xb60372eec480b},{1602,0xb7948e38445d6},{1602,0xbd4c41a1b66c1},{1602,0xc744669f31059},{1602,0xc81be19269ef9},{1602,0xce9d671500ebe},{1602,0xd67802bca97f3},{1602,0xd6f8d6695cbdc},{1602,0xe1534c3e2e98a},{1602,0xeba6688cead2d},{1602,0xf7ee39e3f4fad},{1602,0xfa8ab6e9f341b},
{1603,0x45af4fa2277},{1603,0x2c35f729689e},{1603,0x4dc92e64b5d2},{1603,0x973767cf492d},{1603,0xe0a5a139dc88},{1603,0x12a13daa46fe3},{1603,0x1ceaa4b59d40a},{1603,0x231bcb60e95b2},{1603,0x2993e0f6f9eb6},{1603,0x2f55cb3769f0e},{1603,0x3a6927c18d331},{1603,0x3cae4bb77e499},{1603,0x4086218ce3171},{1603,0x4374374f3c2c6},{1603,0x47a5f0249692c},{1603,0x4a75eb58df47b},{1603,0x4e738f34bebb3},{1603,0x6daa4ad17a6e3},{1603,0x6e6b056f7f2ff},{1603,0x709889bde0723},{1603,0x768f483d8bd32},{1603,0x8394cb77b8cc6},{1603,0x83e1167d4ad9e},{1603,0x95ad0c3ae09d7},{1603,0x971e3de09f647},{1603,0xa336dfacbc442},{1603,0xaaa7b04985fc8},{1603,0xb60372eec480b},{1603,0xbd4c41a1b66c1},{1603,0xc4d5e70887715},{1603,0xc744669f31059},{1603,0xc89f1df317195},{1603,0xce9d671500ebe},{1603,0xd67802bca97f3},{1603,0xe1534c3e2e98a},{1603,0xeba6688cead2d},{1603,0xf7ee39e3f4fad},{1603,0xff6a0e674893f},
{1604,0x291211af6c25},{1604,0x4dc92e64b5d2},{1604,0x72804b19ff80},{1604,0x88b2463aecd9},{1604,0x973767cf492d},{1604,0x110ac03473b58},{1604,0x12a13daa46fe3},{1604,0x1ceaa4b59d40a},{1604,0x1fa2dd53ec482},{1604,0x231bcb60e95b2},{1604,0x2376e10bb9a08},{1604,0x2657d62bf1a34},{1604,0x2993af9b950aa},{1604,0x2993e0f6f9eb6},{1604,0x3c0b964e46a35},{1604,0x3cae4bb77e499},{1604,0x48f8743d05043},{1604,0x4a75eb58df47b},{1604,0x6066602dd26d3},{1604,0x6e6b056f7f2ff},{1604,0x75c405e54f164},{1604,0x83e1167d4ad9e},{1604,0x8870953f1b592},{1604,0x95ad0c3ae09d7},{1604,0x971e3de09f647},{1604,0x9ad7b607581ac},{1604,0xa132129e6a214},{1604,0xaaa7b04985fc8},{1604,0xad5615c8a7fee},{1604,0xb60372eec480b},{1604,0xbd4c41a1b66c1},{1604,0xc528b4e9a1def},{1604,0xc75e2d3afd845},{1604,0xce9d671500ebe},{1604,0xd67802bca97f3},{1604,0xe1534c3e2e98a},{1604,0xe52e52f6da429},{1604,0xeba6688cead2d},{1604,0xf13e4d2a4a6a3},{1604,0xf6b76cc621fe4},{1604,0xf7ee39e3f4fad},
{1605,0x4dc92e64b5d2},{1605,0x72804b19ff80},{1605,0x12a13daa46fe3},{1605,0x19d2e640c3601},{1605,0x1fa2dd53ec482},{1605,0x231bcb60e95b2},{1605,0x2376e10bb9a08},{1605,0x2657d62bf1a34},{1605,0x27f5db9175c75},{1605,0x2ee5801b5ab85},{1605,0x3348015812c3c},{1605,0x3b34b5631a414},{1605,0x3c0b964e46a35},{1605,0x3cae4bb77e499},{1605,0x4a75eb58df47b},{1605,0x6e6b056f7f2ff},{1605,0x83e1167d4ad9e},{1605,0x86252373c6be5},{1605,0x8870953f1b592},{1605,0x89ce220f304d1},{1605,0x971e3de09f647},{1605,0x9b9c8150b8c5a},{1605,0x9bfb5b7c6efb4},{1605,0xa132129e6a214},{1605,0xa230b67d28011},{1605,0xaaa7b04985fc8},{1605,0xaf744bfde26c3},{1605,0xbd4c41a1b66c1},{1605,0xc75e2d3afd845},{1605,0xce9d671500ebe},{1605,0xe1273f26056e2},{1605,0xe1534c3e2e98a},{1605,0xe52e52f6da429},{1605,0xeba6688cead2d},{1605,0xed446df26ef6e},{1605,0xf55a88ee03ab3},{1605,0xfb0a17acd9d6b},{1605,0xff56fba5e4109},
{1606,0x4dc92e64b5d2},{1606,0x72804b19ff80},{1606,0x1b5c0db274204},{1606,0x1d876bf5e1785},{1606,0x231bcb60e95b2},{1606,0x27f5db9175c75},{1606,0x2b31e65c7e0f7},{1606,0x2b4098fc20d4d},{1606,0x2f92897365f97},{1606,0x4374374f3c2c6},{1606,0x46a69412b35b2},{1606,0x4a75eb58df47b},{1606,0x4dec915d00a38},{1606,0x5f89b12e39331},{1606,0x6e6b056f7f2ff},{1606,0x7f42ce11c8edc},{1606,0x83e1167d4ad9e},{1606,0x864eb0b8f0d30},{1606,0x8870953f1b592},{1606,0x89ce220f304d1},{1606,0x8abc070a6ff40},{1606,0x9b9c8150b8c5a},{1606,0xa230b67d28011},{1606,0xa431415226cc1},{1606,0xa77b6b7c69160},{1606,0xaaa7b04985fc8},{1606,0xaea3c39126c86},{1606,0xbd4c41a1b66c1},{1606,0xbdff7a96aec47},{1606,0xca3a966b83572},{1606,0xdd0ad7fe7bac9},{1606,0xe1534c3e2e98a},{1606,0xe52e52f6da429},{1606,0xed446df26ef6e},{1606,0xf2c0fef98c0d6},
{1607,0x72804b19ff80},{1607,0x865338565eb5},{1607,0x1b05b06554a6d},{1607,0x1bbb6b796ab12},{1607,0x1ed690484f9b7},{1607,0x2289bf9e721a7},{1607,0x25c1937c7f5c2},{1607,0x2b4098fc20d4d},{1607,0x4374374f3c2c6},{1607,0x46a69412b35b2},{1607,0x48f205de07f60},{1607,0x4a75eb58df47b},{1607,0x4b4340e028864},{1607,0x4d2f2c72dae11},{1607,0x58e1fed0530a3},{1607,0x5f89b12e39331},{1607,0x6301defdfd0e6},{1607,0x678b94a8e75a2},{1607,0x83e1167d4ad9e},{1607,0x88301ca9ac290},{1607,0x8870953f1b592},{1607,0x89ce220f304d1},{1607,0x8abc070a6ff40},{1607,0x9635400316fa3},{1607,0xa230b67d28011},{1607,0xa7eaeb17c874d},{1607,0xa95595d54f582},{1607,0xaaa7b04985fc8},{1607,0xca3a966b83572},{1607,0xcc860836d7f20},{1607,0xd84416d416e07},{1607,0xe52e52f6da429},{1607,0xea0a259bdd530},{1607,0xec06c1812b02a},{1607,0xed446df26ef6e},{1607,0xf2c0fef98c0d6},
{1608,0x72804b19ff80},{1608,0x865338565eb5},{1608,0x1b05b06554a6d},{1608,0x1bbb6b796ab12},{1608,0x1ed690484f9b7},{1608,0x26e52c4d4977a},{1608,0x280d0547d3f70},{1608,0x33f77259cf8f3},{1608,0x48f205de07f60},{1608,0x4a75eb58df47b},{1608,0x4b4340e028864},{1608,0x512ec3d23d9b4},{1608,0x5719145dcd5aa},{1608,0x6301defdfd0e6},{1608,0x678b94a8e75a2},{1608,0x69d706743bf50},{1608,0x7158106fc1aba},{1608,0x77aff17801711},{1608,0x77fe14f40159a},{1608,0x801a01ae1774b},{1608,0x86d4c7a3c1857},{1608,0x8870953f1b592},{1608,0x89ce220f304d1},{1608,0x9635400316fa3},{1608,0x98e3158a3558a},{1608,0xa230b67d28011},{1608,0xa7eaeb17c874d},{1608,0xbaba454e0d8ff},{1608,0xc315e1a4d2cb0},{1608,0xd84416d416e07},{1608,0xe52e52f6da429},{1608,0xe5c9b52a468eb},{1608,0xea0a259bdd530},{1608,0xec06c1812b02a},{1608,0xed446df26ef6e},{1608,0xee65924ab4b03},{1608,0xf24d81950eeaa},{1608,0xf2c0fef98c0d6},{1608,0xf732408775211},{1608,0xfea7125d534e6},
{1609,0x275be6f8dc32},{1609,0x1bbb6b796ab12},{1609,0x1e2e52ef9abd4},{1609,0x22ae676db4511},{1609,0x26e52c4d4977a},{1609,0x33f77259cf8f3},{1609,0x3f2ef65838975},{1609,0x406bed30e468c},{1609,0x48f205de07f60},{1609,0x512ec3d23d9b4},{1609,0x700a427c4f21c},{1609,0x77aff17801711},{1609,0x825022b94b151},{1609,0x86d4c7a3c1857},{1609,0x89ce220f304d1},{1609,0x8b1bf002a2d6f},{1609,0x8cf053fa94b91},{1609,0x9635400316fa3},{1609,0xa027cea7fcecc},{1609,0xa7eaeb17c874d},{1609,0xbaba454e0d8ff},{1609,0xd84416d416e07},{1609,0xdcf7df8f573b7},{1609,0xe52e52f6da429},{1609,0xed6b08cd0bf10},{1609,0xee65924ab4b03},{1609,0xf15f1723a6807},{1609,0xf24d81950eeaa},{1609,0xf2c0fef98c0d6},{1609,0xf732408775211},{1609,0xf8b0740f64359},
{1610,0x275be6f8dc32},{1610,0x1bbb6b796ab12},{1610,0x1e2e52ef9abd4},{1610,0x22ae676db4511},{1610,0x369ecd5ee3ff6},{1610,0x39e6e76fa7b76},{1610,0x3f2ef65838975},{1610,0x48f205de07f60},{1610,0x59dc20f85a1d1},{1610,0x77aff17801711},{1610,0x825022b94b151},{1610,0x8877a8f493655},{1610,0x8cf053fa94b91},{1610,0x9b2e875589f38},{1610,0x9dea813e42e41},{1610,0xa7eaeb17c874d},{1610,0xb40cebf1c8d1e},{1610,0xbb6e9d9fa40ac},{1610,0xbf0384159b534},{1610,0xc13f4b0f4a415},{1610,0xdcf7df8f573b7},{1610,0xed6b08cd0bf10},{1610,0xf15f1723a6807},{1610,0xf2c0fef98c0d6},{1610,0xf732408775211},{1610,0xf8b0740f64359},
{1611,0x7ba97c65f8fa},{1611,0x15f7df8817b62},{1611,0x1e2e52ef9abd4},{1611,0x1fd3c52246f74},{1611,0x4575b66c1c7f5},{1611,0x4882082c791d1},{1611,0x48f205de07f60},{1611,0x4deb4d307aef4},{1611,0x525cf90f1658d},{1611,0x57cf5db424851},{1611,0x58d3f517f2630},{1611,0x644e04ed4848e},{1611,0x71b01bd52fb1b},{1611,0x72104699c8f4c},{1611,0x7b0c30d0da840},{1611,0x7d000a18a6431},{1611,0x825022b94b151},{1611,0x8877a8f493655},{1611,0x8bb9869627bbe},{1611,0x8cf053fa94b91},{1611,0x96d82d91a9afd},{1611,0x9b2e875589f38},{1611,0x9dea813e42e41},{1611,0xa5c2f1571fc61},{1611,0xa7eaeb17c874d},{1611,0xa8c9396fdb9fe},{1611,0xad9659753beaf},{1611,0xb409e7c8fd093},{1611,0xbb6e9d9fa40ac},{1611,0xbf0384159b534},{1611,0xcca5011db77aa},{1611,0xdcf7df8f573b7},{1611,0xe871c17a98f7b},{1611,0xf15f1723a6807},{1611,0xf732408775211},
{1612,0x7ba97c65f8fa},{1612,0x9b7570c6da42},{1612,0xb44a4c46677e},{1612,0x15f7df8817b62},{1612,0x1ada7dcfd3fdf},{1612,0x1b3e4a4e3b259},{1612,0x1e2e52ef9abd4},{1612,0x1fd3c52246f74},{1612,0x4575b66c1c7f5},{1612,0x4882082c791d1},{1612,0x4deb4d307aef4},{1612,0x58d3f517f2630},{1612,0x644e04ed4848e},{1612,0x658302f7686f2},{1612,0x71b01bd52fb1b},{1612,0x725fd8d75c9f1},{1612,0x7b0c30d0da840},{1612,0x7fa81668f8ac1},{1612,0x825022b94b151},{1612,0x8877a8f493655},{1612,0x8bb9869627bbe},{1612,0x8bebbc96c6db2},{1612,0x8cf053fa94b91},{1612,0x96d82d91a9afd},{1612,0x9b2e875589f38},{1612,0xa5c2f1571fc61},{1612,0xa7eaeb17c874d},{1612,0xbb6e9d9fa40ac},{1612,0xbf0384159b534},{1612,0xc880e3ac2a225},{1612,0xcca5011db77aa},{1612,0xd2bc619dc0aee},{1612,0xdcf7df8f573b7},{1612,0xe871c17a98f7b},{1612,0xf15f1723a6807},{1612,0xf3df319a07e4a},{1612,0xf732408775211},{1612,0xf965966bce055},
{1613,0x7ba97c65f8fa},{1613,0x13f2d4fe0430b},{1613,0x1e2e52ef9abd4},{1613,0x25bc2d991deae},{1613,0x3462e5802776a},{1613,0x3bdf7e0360c35},{1613,0x4575b66c1c7f5},{1613,0x58d3f517f2630},{1613,0x71b01bd52fb1b},{1613,0x725fd8d75c9f1},{1613,0x7b0c30d0da840},{1613,0x7fa81668f8ac1},{1613,0x80fc1c9121e09},{1613,0x825022b94b151},{1613,0x8bb9869627bbe},{1613,0x8bebbc96c6db2},{1613,0x8cf053fa94b91},{1613,0x9078d04b863cf},{1613,0x9b2e875589f38},{1613,0x9b6a66c7e17fe},{1613,0xa7eaeb17c874d},{1613,0xb3a3f87de990c},{1613,0xb4b6ef05dd6c2},{1613,0xbf0384159b534},{1613,0xd2bc619dc0aee},{1613,0xdcf7df8f573b7},{1613,0xf1e91593d0ac2},{1613,0xf21b4b946fcb6},{1613,0xf3df319a07e4a},{1613,0xf732408775211},
{1614,0xfd149576383},{1614,0x13f2d4fe0430b},{1614,0x1e2e52ef9abd4},{1614,0x2589f7987ecba},{1614,0x3462e5802776a},{1614,0x3f4811588826f},{1614,0x4575b66c1c7f5},{1614,0x463417a258f36},{1614,0x58d3f517f2630},{1614,0x67c8b66ad8b51},{1614,0x71b01bd52fb1b},{1614,0x725fd8d75c9f1},{1614,0x7b0c30d0da840},{1614,0x7fa81668f8ac1},{1614,0x80fc1c9121e09},{1614,0x81a61fa5367ad},{1614,0x864c3531c6b29},{1614,0x8bebbc96c6db2},{1614,0x9078d04b863cf},{1614,0x9b2e875589f38},{1614,0xa577a05631173},{1614,0xaa6db6eaf5d48},{1614,0xb4c90caf68e01},{1614,0xcb16134a2bc8a},{1614,0xd2bc619dc0aee},{1614,0xd9cf3d0511250},{1614,0xdabd88f4b3868},{1614,0xdcf7df8f573b7},{1614,0xfddf9b738d756},
{1615,0xfd149576383},{1615,0x1aaffd0aced76},{1615,0x1e2e52ef9abd4},{1615,0x2589f7987ecba},{1615,0x2cd869413181f},{1615,0x3462e5802776a},{1615,0x463417a258f36},{1615,0x4e15cdf58015d},{1615,0x58d3f517f2630},{1615,0x5daf482224903},{1615,0x63fe5e63809cf},{1615,0x67c8b66ad8b51},{1615,0x725fd8d75c9f1},{1615,0x7b0c30d0da840},{1615,0x7fa81668f8ac1},{1615,0x81511e1b2c2db},{1615,0x81a61fa5367ad},{1615,0x82cd199cf6828},{1615,0x82fa25cd5faf5},{1615,0x8bebbc96c6db2},{1615,0x9078d04b863cf},{1615,0x939472c362bf9},{1615,0xa7b90d5d56fe9},{1615,0xaa6db6eaf5d48},{1615,0xd2bc619dc0aee},{1615,0xd8dab8d5f43e3},{1615,0xdcf7df8f573b7},{1615,0xfddf9b738d756},
{1616,0xd293d07111a},{1616,0xfd149576383},{1616,0x1e2e52ef9abd4},{1616,0x231205237f048},{1616,0x2589f7987ecba},{1616,0x3bdf7e0360c35},{1616,0x463417a258f36},{1616,0x5daf482224903},{1616,0x6c0b2cc00d997},{1616,0x725fd8d75c9f1},{1616,0x81511e1b2c2db},{1616,0x817b9ee031544},{1616,0x82fa25cd5faf5},{1616,0x8c783ca00cd12},{1616,0x9078d04b863cf},{1616,0x92bcf3dde82c4},{1616,0xa07b1ef96bec3},{1616,0xa5456a5591f7f},{1616,0xa7b90d5d56fe9},{1616,0xaa6db6eaf5d48},{1616,0xc0565a8841fbf},{1616,0xd8dab8d5f43e3},{1616,0xd9cf3d0511250},{1616,0xdcf7df8f573b7},{1616,0xfddf9b738d756},
{1617,0xe7d432f3a4e},{1617,0xfd149576383},{1617,0x1e2e52ef9abd4},{1617,0x20a2b188f4be6},{1617,0x231205237f048},{1617,0x3394d35868c87},{1617,0x3f549ed8afeec},{1617,0x463417a258f36},{1617,0x635b6dc3ccdbc},{1617,0x6a61aa2c7cfb6},{1617,0x6c0b2cc00d997},{1617,0x725fd8d75c9f1},{1617,0x769761e4b9bef},{1617,0x7aacff525e273},{1617,0x81511e1b2c2db},{1617,0x81665e7daec10},{1617,0x817b9ee031544},{1617,0x8225a1f445ee8},{1617,0x82fa25cd5faf5},{1617,0x8e4a72e99c5a4},{1617,0x9078d04b863cf},{1617,0x9e9555646f006},{1617,0xa07b1ef96bec3},{1617,0xa4818627b26a7},{1617,0xa7fd5b5ef4f97},{1617,0xaa6db6eaf5d48},{1617,0xbeb97f446193d},{1617,0xbf101195c31b1},{1617,0xc1b043d44d98b},{1617,0xc56359a56bf05},{1617,0xd8dab8d5f43e3},{1617,0xd9cf3d0511250},{1617,0xdb632c49a637e},{1617,0xdcf7df8f573b7},{1617,0xf16b8e9242de0},{1617,0xf51614befed72},{1617,0xfddf9b738d756},
{1618,0xbd536dee7e5},{1618,0xfd149576383},{1618,0x1180fbe4120d1},{1618,0x143df2d4d80ac},{1618,0x1e2e52ef9abd4},{1618,0x20a2b188f4be6},{1618,0x231205237f048},{1618,0x34a30e62ebfbf},{1618,0x3f549ed8afeec},{1618,0x4131b989927c9},{1618,0x50fce617cc250},{1618,0x6a61aa2c7cfb6},{1618,0x725fd8d75c9f1},{1618,0x769761e4b9bef},{1618,0x7ed3928fdeeb4},{1618,0x81511e1b2c2db},{1618,0x817b9ee031544},{1618,0x82fa25cd5faf5},{1618,0x88465973e001f},{1618,0x9be1993e6447b},{1618,0x9e9555646f006},{1618,0xa4818627b26a7},{1618,0xa7fd5b5ef4f97},{1618,0xaa6db6eaf5d48},{1618,0xabd775e601b44},{1618,0xaf9a4f1ee6c00},{1618,0xbf101195c31b1},{1618,0xc0bcb2db84d2f},{1618,0xc1b043d44d98b},{1618,0xc56359a56bf05},{1618,0xd8dab8d5f43e3},{1618,0xd9cf3d0511250},{1618,0xdb632c49a637e},{1618,0xdcf7df8f573b7},{1618,0xdeef3d64d62c6},{1618,0xf16b8e9242de0},{1618,0xf51614befed72},{1618,0xf87b212440687},{1618,0xf9330c4329a3f},{1618,0xfddf9b738d756},
{1619,0x127955a7b5ec},{1619,0xe32f36012af2},{1619,0x1180fbe4120d1},{1619,0x1759a6a4965ff},{1619,0x1e2e52ef9abd4},{1619,0x20a2b188f4be6},{1619,0x231205237f048},{1619,0x282186232ab72},{1619,0x3f549ed8afeec},{1619,0x410738c48d560},{1619,0x4131b989927c9},{1619,0x45822ddab8dce},{1619,0x57c520e1c5ead},{1619,0x6156ac34e1e87},{1619,0x725fd8d75c9f1},{1619,0x78bfae672d3c2},{1619,0x81511e1b2c2db},{1619,0x82fa25cd5faf5},{1619,0x8720b90ae0736},{1619,0x8907200d9bce3},{1619,0x8ad75d8438f43},{1619,0x915beed3f1186},{1619,0x9e9555646f006},{1619,0xa4818627b26a7},{1619,0xa76e40c5accd3},{1619,0xaf9a4f1ee6c00},{1619,0xb29f1c819b9eb},{1619,0xbc324934c012b},{1619,0xc0bcb2db84d2f},{1619,0xc19b0371cb056},{1619,0xc1b043d44d98b},{1619,0xc56359a56bf05},{1619,0xceda49356e073},{1619,0xdcf7df8f573b7},{1619,0xdeef3d64d62c6},{1619,0xeb1575e9406fb},{1619,0xf16b8e9242de0},{1619,0xf87b212440687},{1619,0xf9330c4329a3f},{1619,0xfddf9b738d756},
{1620,0x835f60fd645a},{1620,0xe32f36012af2},{1620,0x1104edb9dca47},{1620,0x1180fbe4120d1},{1620,0x1759a6a4965ff},{1620,0x1e2e52ef9abd4},{1620,0x20a2b188f4be6},{1620,0x231205237f048},{1620,0x2332082b1d341},{1620,0x282186232ab72},{1620,0x33126fb1d6cda},{1620,0x3f549ed8afeec},{1620,0x45822ddab8dce},{1620,0x57c520e1c5ead},{1620,0x5d9ef8a3d8cac},{1620,0x5ded966624653},{1620,0x6bda5ac714aa9},{1620,0x78bfae672d3c2},{1620,0x7fcf40f92ac69},{1620,0x8720b90ae0736},{1620,0x9183780497c09},{1620,0x9e9555646f006},{1620,0xa4818627b26a7},{1620,0xa76e40c5accd3},{1620,0xbc324934c012b},{1620,0xc19b0371cb056},{1620,0xc1b043d44d98b},{1620,0xc26f874ae4c63},{1620,0xc56359a56bf05},{1620,0xc7cb7e08796d1},{1620,0xceda49356e073},{1620,0xd5e9146262a15},{1620,0xdcf7df8f573b7},{1620,0xe1bff61d1a714},{1620,0xe406aabc4bd59},{1620,0xeb1575e9406fb},{1620,0xf16b8e9242de0},{1620,0xf1dd0fa40370d},{1620,0xf22441163509d},{1620,0xf87b212440687},{1620,0xfddf9b738d756},
{1621,0x4fb144ba1a78},{1621,0xe32f36012af2},{1621,0x1104edb9dca47},{1621,0x12cee2ea4b32f},{1621,0x176ad27483b6c},{1621,0x1cf6d6435a19f},{1621,0x1e2e52ef9abd4},{1621,0x20a2b188f4be6},{1621,0x2a8731250452a},{1621,0x3129e0652c105},{1621,0x3f549ed8afeec},{1621,0x40cefbfb6e466},{1621,0x45822ddab8dce},{1621,0x514ed3107b7c2},{1621,0x57c520e1c5ead},{1621,0x5d9ef8a3d8cac},{1621,0x5ded966624653},{1621,0x7fcf40f92ac69},{1621,0x81378e46eb67d},{1621,0x9183780497c09},{1621,0x95dd37863fd5c},{1621,0x9e9555646f006},{1621,0xa1b0e4a723292},{1621,0xa4818627b26a7},{1621,0xa76e40c5accd3},{1621,0xa999ddec72aca},{1621,0xbc324934c012b},{1621,0xc1b043d44d98b},{1621,0xc6961a88658a4},{1621,0xc7cb7e08796d1},{1621,0xd261aecbe8544},{1621,0xd3f54e2ab9c0b},{1621,0xd5e9146262a15},{1621,0xd97079f8dcee6},{1621,0xd9c6a9bc2884c},{1621,0xdcf7df8f573b7},{1621,0xe07f4525d1888},{1621,0xe22a3809a751a},{1621,0xe406aabc4bd59},{1621,0xe78e1052c622a},{1621,0xeb1575e9406fb},{1621,0xf16b8e9242de0},{1621,0xf264e3367a2d4},{1621,0xf87b212440687},
{1622,0x36af283efdde},{1622,0x99703d5da2b5},{1622,0xdd1a95dc5abf},{1622,0xe32f36012af2},{1622,0x1104edb9dca47},{1622,0x12cee2ea4b32f},{1622,0x176ad27483b6c},{1622,0x19ad0a3d4bffe},{1622,0x1c06c1febc3a9},{1622,0x1e2e52ef9abd4},{1622,0x3129e0652c105},{1622,0x3aa39e855d629},{1622,0x3fc4d1bc2f38d},{1622,0x40cefbfb6e466},{1622,0x41717ab11a367},{1622,0x45822ddab8dce},{1622,0x4ae695157275b},{1622,0x4ec28f7d28701},{1622,0x514ed3107b7c2},{1622,0x57c520e1c5ead},{1622,0x612c2b6fdcc1e},{1622,0x7229e7abf564e},{1622,0x73998940ee030},{1622,0x8974eb412340c},{1622,0x95dd37863fd5c},{1622,0xa4818627b26a7},{1622,0xa76e40c5accd3},{1622,0xa999ddec72aca},{1622,0xb1d53a54e1b5f},{1622,0xb626821815ebc},{1622,0xbc324934c012b},{1622,0xc7cb7e08796d1},{1622,0xc9bed097c2187},{1622,0xd3f54e2ab9c0b},{1622,0xd97079f8dcee6},{1622,0xdcf7df8f573b7},{1622,0xe07f4525d1888},{1622,0xe0d3d9f70d35d},{1622,0xe406aabc4bd59},{1622,0xeb1575e9406fb},{1622,0xed8d34e547313},{1622,0xf207906908976},{1622,0xfcba71d9a3f10},
{1623,0x5f24c16923b},{1623,0x8e12093e5916},{1623,0x1104edb9dca47},{1623,0x12cee2ea4b32f},{1623,0x176ad27483b6c},{1623,0x1e2e52ef9abd4},{1623,0x2e7680279e49d},{1623,0x3478410f4c7ec},{1623,0x3aa39e855d629},{1623,0x514ed3107b7c2},{1623,0x57c520e1c5ead},{1623,0x6766084c1de7f},{1623,0x6d61df28cf5e7},{1623,0x73998940ee030},{1623,0x92dc8a374ee92},{1623,0x95dd37863fd5c},{1623,0x9d5d5041feed6},{1623,0x9fdbed0841b0e},{1623,0xa76e40c5accd3},{1623,0xa999ddec72aca},{1623,0xafdb8e489e4b1},{1623,0xb606ebbeaf2ee},{1623,0xc7cb7e08796d1},{1623,0xd15ee2832bf3b},{1623,0xd3dd7f496eb73},{1623,0xd3f54e2ab9c0b},{1623,0xd97079f8dcee6},{1623,0xdcf7df8f573b7},{1623,0xe07f4525d1888},{1623,0xe5d1dcb015fac},{1623,0xeb1575e9406fb},{1623,0xfcba71d9a3f10},
{1624,0x5f24c16923b},{1624,0x12cee2ea4b32f},{1624,0x176ad27483b6c},{1624,0x28a2e6d020a2f},{1624,0x2d17f9d23086c},{1624,0x3478410f4c7ec},{1624,0x3aa39e855d629},{1624,0x3cd602126d2b4},{1624,0x3e1550758e8d0},{1624,0x3f33667156017},{1624,0x514ed3107b7c2},{1624,0x5a05c53aed498},{1624,0x6548faf8b222f},{1624,0x6766084c1de7f},{1624,0x73998940ee030},{1624,0x7a01d4ce4edb7},{1624,0x8c9da1507fcef},{1624,0x92dc8a374ee92},{1624,0x95dd37863fd5c},{1624,0x99bc858d1166e},{1624,0x9d5d5041feed6},{1624,0xa999ddec72aca},{1624,0xafdb8e489e4b1},{1624,0xb977364bd3f25},{1624,0xbe902bb1bb631},{1624,0xd15ee2832bf3b},{1624,0xd1b4a9d192620},{1624,0xd931e70a967dc},{1624,0xd97079f8dcee6},{1624,0xdcf7df8f573b7},{1624,0xe5d1dcb015fac},{1624,0xe6d3edc072e25},{1624,0xeb1575e9406fb},{1624,0xf6ce41166086f},
{1625,0x5f24c16923b},{1625,0xc925afaa44a3},{1625,0xd32022c34fb1},{1625,0x12cee2ea4b32f},{1625,0x176ad27483b6c},{1625,0x281c2a159952f},{1625,0x28a2e6d020a2f},{1625,0x3478410f4c7ec},{1625,0x37b56bba155cc},{1625,0x3aa39e855d629},{1625,0x3f33667156017},{1625,0x6548faf8b222f},{1625,0x73998940ee030},{1625,0x77f17e60968fa},{1625,0x7a01d4ce4edb7},{1625,0x8c9da1507fcef},{1625,0x9282a190b5fe2},{1625,0x92dc8a374ee92},{1625,0x95dd37863fd5c},{1625,0x98b8efcddef4c},{1625,0x99bc858d1166e},{1625,0x9d5d5041feed6},{1625,0xa1206d4404af3},{1625,0xa999ddec72aca},{1625,0xb977364bd3f25},{1625,0xc72117430fd7c},{1625,0xd97079f8dcee6},{1625,0xdcf7df8f573b7},{1625,0xeb1575e9406fb},{1625,0xfce9190bd2a94},{1625,0xfcf99e8c716ac},
{1626,0x5f24c16923b},{1626,0x12cee2ea4b32f},{1626,0x176ad27483b6c},{1626,0x1d55a2948d287},{1626,0x2011fb3ecc2e4},{1626,0x28a2e6d020a2f},{1626,0x3478410f4c7ec},{1626,0x3aa39e855d629},{1626,0x3f33667156017},{1626,0x5a64115b41521},{1626,0x6548faf8b222f},{1626,0x6f487257b0776},{1626,0x73998940ee030},{1626,0x7a01d4ce4edb7},{1626,0x819651531f9e7},{1626,0x86e75af36b32b},{1626,0x8c9da1507fcef},{1626,0x95dd37863fd5c},{1626,0x98b8efcddef4c},{1626,0x9d5d5041feed6},{1626,0xa02bc0a10a095},{1626,0xa07b9439d261c},{1626,0xa999ddec72aca},{1626,0xad6e548f1279b},{1626,0xc72117430fd7c},{1626,0xceb46196f2be2},{1626,0xd0bf3b519b42d},{1626,0xd97079f8dcee6},{1626,0xe0568f28bc88b},{1626,0xe827431df869e},{1626,0xeb1575e9406fb},{1626,0xf36faf83b9ada},
{1627,0x5f24c16923b},{1627,0x1111c9c74dff0},{1627,0x2011fb3ecc2e4},{1627,0x2262bd806afc9},{1627,0x25cb931d45f04},{1627,0x28a2e6d020a2f},{1627,0x3478410f4c7ec},{1627,0x3aa39e855d629},{1627,0x3e65240e56e57},{1627,0x3f33667156017},{1627,0x49d5c23fdd18a},{1627,0x5a64115b41521},{1627,0x6548faf8b222f},{1627,0x6b089daf998e5},{1627,0x73998940ee030},{1627,0x7a01d4ce4edb7},{1627,0x7ea8c7eedb185},{1627,0x819651531f9e7},{1627,0x8c9da1507fcef},{1627,0x95dd37863fd5c},{1627,0x98b8efcddef4c},{1627,0x9d5d5041feed6},{1627,0xa02bc0a10a095},{1627,0xa07b9439d261c},{1627,0xa82f3870f9495},{1627,0xa999ddec72aca},{1627,0xc0701975ebaf5},{1627,0xc72117430fd7c},{1627,0xd0bf3b519b42d},{1627,0xe0568f28bc88b},{1627,0xe9a89fdb74907},{1627,0xeb1575e9406fb},{1627,0xf0e4de4420c22},{1627,0xfae398b500819},
{1628,0x10d238010acb},{1628,0x44576e4e88af},{1628,0x1111c9c74dff0},{1628,0x1a7bac1a8af3a},{1628,0x22565afeaa275},{1628,0x2262bd806afc9},{1628,0x25cb931d45f04},{1628,0x3478410f4c7ec},{1628,0x3e65240e56e57},{1628,0x3f33667156017},{1628,0x43d5dc3c8e8fc},{1628,0x446d48c16fcdf},{1628,0x49d5c23fdd18a},{1628,0x537780a6c6ea6},{1628,0x5eb7a5c0658dd},{1628,0x6548faf8b222f},{1628,0x73998940ee030},{1628,0x755ae1adc29e9},{1628,0x7c554e5e94f9e},{1628,0x819651531f9e7},{1628,0x86bc19b4d5b62},{1628,0x87922faff9142},{1628,0x887b6cc176783},{1628,0x8cbcd279c6d28},{1628,0x95dd37863fd5c},{1628,0x98b8efcddef4c},{1628,0x9d5d5041feed6},{1628,0xa82f3870f9495},{1628,0xa999ddec72aca},{1628,0xb01649d6d9524},{1628,0xb23f33c287629},{1628,0xc4ea303e3f4ce},{1628,0xc72117430fd7c},{1628,0xc9a2572d1cdc8},{1628,0xd0bf3b519b42d},{1628,0xd842ee65b8c12},{1628,0xdc02fac3984cf},{1628,0xe1fbe5a7e7861},{1628,0xe9a89fdb74907},{1628,0xf64d57c28e0cd},{1628,0xf72349f4e37da},{1628,0xfae398b500819},
{1629,0x44576e4e88af},{1629,0x2130bcfe57b6d},{1629,0x226636c16c78d},{1629,0x25cb931d45f04},{1629,0x2f560e11f4bbc},{1629,0x307fcada17caf},{1629,0x3e65240e56e57},{1629,0x3f33667156017},{1629,0x43d5dc3c8e8fc},{1629,0x4481a413f2475},{1629,0x49d5c23fdd18a},{1629,0x537780a6c6ea6},{1629,0x626d5d399b8d7},{1629,0x6548faf8b222f},{1629,0x755ae1adc29e9},{1629,0x7c554e5e94f9e},{1629,0x80fc417f2136c},{1629,0x819651531f9e7},{1629,0x86bc19b4d5b62},{1629,0x87922faff9142},{1629,0x887b6cc176783},{1629,0x9406e1f4e5baf},{1629,0x95dd37863fd5c},{1629,0x9d5d5041feed6},{1629,0xa54105a5b1438},{1629,0xa999ddec72aca},{1629,0xb1c91b7d83924},{1629,0xb23f33c287629},{1629,0xb71012f5fc4b7},{1629,0xc82ad1e31228d},{1629,0xd0bf3b519b42d},{1629,0xd842ee65b8c12},{1629,0xe1fbe5a7e7861},{1629,0xe9a89fdb74907},{1629,0xf975c9d57536d},{1629,0xfae398b500819},{1629,0xfc557c75a6f55},
{1630,0x44576e4e88af},{1630,0x2130bcfe57b6d},{1630,0x226636c16c78d},{1630,0x307fcada17caf},{1630,0x358bc7811da44},{1630,0x3e65240e56e57},{1630,0x3f33667156017},{1630,0x49d5c23fdd18a},{1630,0x51638728bbaaa},{1630,0x537780a6c6ea6},{1630,0x6548faf8b222f},{1630,0x755ae1adc29e9},{1630,0x7c554e5e94f9e},{1630,0x8059165f44d39},{1630,0x819651531f9e7},{1630,0x87922faff9142},{1630,0x9d5d5041feed6},{1630,0x9efcfab9c81c2},{1630,0xa2401020d3916},{1630,0xa54105a5b1438},{1630,0xa999ddec72aca},{1630,0xb1c91b7d83924},{1630,0xb23f33c287629},{1630,0xc5d75852cc0a6},{1630,0xc82ad1e31228d},{1630,0xe1fbe5a7e7861},{1630,0xe9a89fdb74907},{1630,0xee1593a550c05},{1630,0xf975c9d57536d},{1630,0xff110f551845d},
{1631,0x44576e4e88af},{1631,0x5079bc6a9b8d},{1631,0x1cf58b94e6f7a},{1631,0x263a7736662e8},{1631,0x307fcada17caf},{1631,0x3369bfc16e236},{1631,0x358bc7811da44},{1631,0x3e65240e56e57},{1631,0x3f33667156017},{1631,0x42e04d57258f1},{1631,0x49d5c23fdd18a},{1631,0x537780a6c6ea6},{1631,0x6548faf8b222f},{1631,0x755ae1adc29e9},{1631,0x8059165f44d39},{1631,0x819651531f9e7},{1631,0x85858f9d1bdbf},{1631,0x87922faff9142},{1631,0x9274e4e1f5cd6},{1631,0x9d5d5041feed6},{1631,0xa21f002fbcafd},{1631,0xa369cce8f6a09},{1631,0xa999ddec72aca},{1631,0xb1c91b7d83924},{1631,0xb23f33c287629},{1631,0xba35f8816d723},{1631,0xc5d9ab0898563},{1631,0xc82ad1e31228d},{1631,0xcb26653d6c02e},{1631,0xe1fbe5a7e7861},{1631,0xe9a89fdb74907},{1631,0xee1593a550c05},{1631,0xefec071838872},{1631,0xf975c9d57536d},{1631,0xff110f551845d},
{1632,0x44576e4e88af},{1632,0x5079bc6a9b8d},{1632,0x7e952a148465},{1632,0xe123f7042612},{1632,0x1c88024fc6894},{1632,0x1cf58b94e6f7a},{1632,0x1e87dc40e5ae3},{1632,0x263a7736662e8},{1632,0x307fcada17caf},{1632,0x3369bfc16e236},{1632,0x3e65240e56e57},{1632,0x4313d53466fc9},{1632,0x4cee309e69760},{1632,0x52ed5643ed34c},{1632,0x68638801b6886},{1632,0x697cec3deda49},{1632,0x755ae1adc29e9},{1632,0x7b2b919671eab},{1632,0x821f678b779dd},{1632,0x85858f9d1bdbf},{1632,0x9d5d5041feed6},{1632,0x9efbb6f4b3bf1},{1632,0xa0718e3dcbed8},{1632,0xa21f002fbcafd},{1632,0xa96f516e89705},{1632,0xa9b34681486fb},{1632,0xab70515f5a737},{1632,0xb1c91b7d83924},{1632,0xb23f33c287629},{1632,0xb4a0929de1558},{1632,0xc5d9ab0898563},{1632,0xcb26653d6c02e},{1632,0xd257188247526},{1632,0xdd8d19c17ecd0},{1632,0xe1fbe5a7e7861},{1632,0xec9983f98f961},{1632,0xee1593a550c05},{1632,0xf42dca4b1b55f},{1632,0xf45cd798466b2},{1632,0xf975c9d57536d},{1632,0xff110f551845d},
{1633,0xe123f7042612},{1633,0x13c54a5660159},{1633,0x1c88024fc6894},{1633,0x23e6cb90ba22f},{1633,0x263a7736662e8},{1633,0x307fcada17caf},{1633,0x3e482cb7e21e1},{1633,0x3e65240e56e57},{1633,0x4de6a3e19255e},{1633,0x52ed5643ed34c},{1633,0x542e68168c8fc},{1633,0x604245cce741a},{1633,0x68638801b6886},{1633,0x82e06c21dabae},{1633,0x85858f9d1bdbf},{1633,0x9d5d5041feed6},{1633,0x9efbb6f4b3bf1},{1633,0xa0718e3dcbed8},{1633,0xa21f002fbcafd},{1633,0xa5bc68f2ea955},{1633,0xaa9bc2521106a},{1633,0xb1c91b7d83924},{1633,0xb23f33c287629},{1633,0xb4a0929de1558},{1633,0xb7da3462231fe},{1633,0xcb26653d6c02e},{1633,0xccc2f2825599e},{1633,0xd15b1321990ae},{1633,0xd257188247526},{1633,0xdc40f81f91961},{1633,0xdd8d19c17ecd0},{1633,0xdef4681ea2b5c},{1633,0xe1fbe5a7e7861},{1633,0xe2d7451d44d8e},{1633,0xecd3fca26b84e},{1633,0xee1593a550c05},{1633,0xf10bc4d526c24},{1633,0xf975c9d57536d},{1633,0xff110f551845d},
{1634,0x797d6a0f7430},{1634,0x1c88024fc6894},{1634,0x23e6cb90ba22f},{1634,0x263a7736662e8},{1634,0x2d9edc26648ad},{1634,0x307fcada17caf},{1634,0x3e65240e56e57},{1634,0x48391e871b5a1},{1634,0x52ed5643ed34c},{1634,0x542e68168c8fc},{1634,0x6302e5e03b696},{1634,0x6432ee7a20b58},{1634,0x68638801b6886},{1634,0x74dc3f0b9e48c},{1634,0x80ed6efdd86af},{1634,0x82e06c21dabae},{1634,0x85858f9d1bdbf},{1634,0x8faa66a9fc495},{1634,0x901ede31ecd42},{1634,0x9d5d5041feed6},{1634,0x9efbb6f4b3bf1},{1634,0xa21f002fbcafd},{1634,0xa3a516ee19cff},{1634,0xa3fc894a07fa0},{1634,0xaa9bc2521106a},{1634,0xb1c91b7d83924},{1634,0xb7da3462231fe},{1634,0xc518a67235392},{1634,0xcb26653d6c02e},{1634,0xccc2f2825599e},{1634,0xd15b1321990ae},{1634,0xdd8d19c17ecd0},{1634,0xdef4681ea2b5c},{1634,0xe1fbe5a7e7861},{1634,0xecd3fca26b84e},{1634,0xee1593a550c05},{1634,0xf10bc4d526c24},{1634,0xf975c9d57536d},{1634,0xfc1adf83583cc},{1634,0xff110f551845d},
{1635,0x18b269831cd63},{1635,0x1c88024fc6894},{1635,0x23e6cb90ba22f},{1635,0x262b4db15c0a2},{1635,0x263a7736662e8},{1635,0x2d9edc26648ad},{1635,0x2de31f5bc1e96},{1635,0x307fcada17caf},{1635,0x48391e871b5a1},{1635,0x52ed5643ed34c},{1635,0x542e68168c8fc},{1635,0x599235e1c0336},{1635,0x60b0ed0c36081},{1635,0x6302e5e03b696},{1635,0x6432ee7a20b58},{1635,0x68638801b6886},{1635,0x8faa66a9fc495},{1635,0x901ede31ecd42},{1635,0x96be1739f5e0c},{1635,0x9714a58ed3b62},{1635,0x9ac700cddce03},{1635,0x9b2762e205e1a},{1635,0x9d5d5041feed6},{1635,0xa0acecc60373b},{1635,0xa0cf98c6f9f15},{1635,0xa21f002fbcafd},{1635,0xa3fc894a07fa0},{1635,0xaa9bc2521106a},{1635,0xae594eaaebaaa},{1635,0xb13afb5a1a134},{1635,0xb3434be74de4f},{1635,0xb7da3462231fe},{1635,0xbeff53ffa55d4},{1635,0xcb26653d6c02e},{1635,0xccc2f2825599e},{1635,0xd15b1321990ae},{1635,0xd16a7029552a4},{1635,0xdd8d19c17ecd0},{1635,0xe13b1a7f3df64},{1635,0xe1fbe5a7e7861},{1635,0xecd3fca26b84e},{1635,0xee1593a550c05},{1635,0xf10bc4d526c24},{1635,0xfc1adf83583cc},{1635,0xff3824ec044fa},
{1636,0x10e45ba2acd57},{1636,0x1254d2fc86758},{1636,0x13b677d51749b},{1636,0x23e6cb90ba22f},{1636,0x263a7736662e8},{1636,0x2d9edc26648ad},{1636,0x2de31f5bc1e96},{1636,0x2feb91cd3fd48},{1636,0x307fcada17caf},{1636,0x43d53e4ccf8e1},{1636,0x47476ad989494},{1636,0x48e8e55042a03},{1636,0x52e51d7a0eca4},{1636,0x52ed5643ed34c},{1636,0x542e68168c8fc},{1636,0x60b0ed0c36081},{1636,0x6302e5e03b696},{1636,0x68638801b6886},{1636,0x78d437fad2653},{1636,0x80ed6efdd86af},{1636,0x897fa529e3c78},{1636,0x8faa66a9fc495},{1636,0x922434b2c31fd},{1636,0x9a0db3bdfa671},{1636,0x9b2762e205e1a},{1636,0x9d5d5041feed6},{1636,0xa0acecc60373b},{1636,0xa2d00b07619c8},{1636,0xa3fc894a07fa0},{1636,0xa74c25ce0c805},{1636,0xaa9bc2521106a},{1636,0xae594eaaebaaa},{1636,0xb11d85661fdc8},{1636,0xbeff53ffa55d4},{1636,0xc3dc274d690db},{1636,0xcb26653d6c02e},{1636,0xcbb7df7a3e45c},{1636,0xd15b1321990ae},{1636,0xd16a7029552a4},{1636,0xd59dd8b7d5bb3},{1636,0xe13b1a7f3df64},{1636,0xe52f4514b8294},{1636,0xe5308b31f528f},{1636,0xecd3fca26b84e},{1636,0xf10bc4d526c24},{1636,0xf4776e12e1e0d},{1636,0xf6fd8f646e9d5},
{1637,0x10e45ba2acd57},{1637,0x1254d2fc86758},{1637,0x23e6cb90ba22f},{1637,0x263a7736662e8},{1637,0x2d9edc26648ad},{1637,0x47476ad989494},{1637,0x48e8e55042a03},{1637,0x52e51d7a0eca4},{1637,0x60b0ed0c36081},{1637,0x6302e5e03b696},{1637,0x78d437fad2653},{1637,0x78f19695cd27f},{1637,0x80ed6efdd86af},{1637,0x897fa529e3c78},{1637,0x8faa66a9fc495},{1637,0x922434b2c31fd},{1637,0x960bc1f110251},{1637,0x9a0db3bdfa671},{1637,0x9b7f3c7ac9b04},{1637,0x9d5d5041feed6},{1637,0xa0acecc60373b},{1637,0xa1f871279ac64},{1637,0xa3fc894a07fa0},{1637,0xa74c25ce0c805},{1637,0xaa9bc2521106a},{1637,0xb6c945a4a7c59},{1637,0xbb29d0e627a63},{1637,0xbe21f551c5efb},{1637,0xbeff53ffa55d4},{1637,0xc3dc274d690db},{1637,0xcb26653d6c02e},{1637,0xcbb7df7a3e45c},{1637,0xd15b1321990ae},{1637,0xd2134ece85daf},{1637,0xd82ad52912161},{1637,0xe13b1a7f3df64},{1637,0xe52f4514b8294},{1637,0xe5308b31f528f},{1637,0xe9236faa325c4},{1637,0xecd3fca26b84e},{1637,0xf10bc4d526c24},
{1638,0x715124227530},{1638,0x1c76e8f2c2a1c},{1638,0x263a7736662e8},{1638,0x2ce6a07977bad},{1638,0x2d9edc26648ad},{1638,0x2fee30d701a96},{1638,0x305d168826357},{1638,0x39bf8c4604492},{1638,0x418b8817f72c9},{1638,0x47476ad989494},{1638,0x48e8e55042a03},{1638,0x52e51d7a0eca4},{1638,0x568e4dba76012},{1638,0x5badc761988cd},{1638,0x60b0ed0c36081},{1638,0x64eb2a270d859},{1638,0x723410e586283},{1638,0x78d437fad2653},{1638,0x876ffcf5f1452},{1638,0x897fa529e3c78},{1638,0x8faa66a9fc495},{1638,0x9a0db3bdfa671},{1638,0x9ae4a5d06e77e},{1638,0xa0acecc60373b},{1638,0xa3fc894a07fa0},{1638,0xa419157a79c95},{1638,0xaa9bc2521106a},{1638,0xb1085054da027},{1638,0xb6c945a4a7c59},{1638,0xbb29d0e627a63},{1638,0xc9821afe60c44},{1638,0xcb26653d6c02e},{1638,0xd15b1321990ae},{1638,0xda1b843f4462f},{1638,0xdd4680dd31761},{1638,0xe13b1a7f3df64},{1638,0xe52f4514b8294},{1638,0xe5308b31f528f},{1638,0xe9236faa325c4},{1638,0xecd3fca26b84e},{1638,0xed5d57f863f04},{1638,0xf10bc4d526c24},{1638,0xfb5e7a63c962f},
{1639,0x1c76e8f2c2a1c},{1639,0x22e9c0eb5b963},{1639,0x2fee30d701a96},{1639,0x39bf8c4604492},{1639,0x454fbaefa2900},{1639,0x47476ad989494},{1639,0x48e8e55042a03},{1639,0x52e51d7a0eca4},{1639,0x56ea07bba812e},{1639,0x64eb2a270d859},{1639,0x788ccb6b2ce0c},{1639,0x78d437fad2653},{1639,0x7d8a4b0a36d62},{1639,0x876ffcf5f1452},{1639,0x9a0db3bdfa671},{1639,0xa2f0bc1f15988},{1639,0xa3fc894a07fa0},{1639,0xaa9bc2521106a},{1639,0xb67873c396dfb},{1639,0xcb26653d6c02e},{1639,0xd15b1321990ae},{1639,0xd6affe45f818f},{1639,0xda1b843f4462f},{1639,0xdd4680dd31761},{1639,0xdd46efe9c3c34},{1639,0xe3352fc9fb0fc},{1639,0xe52f4514b8294},{1639,0xe5308b31f528f},{1639,0xe7295a5f7542c},{1639,0xecd3fca26b84e},{1639,0xed5d57f863f04},{1639,0xf0f6825904007},{1639,0xf10bc4d526c24},{1639,0xfb5e7a63c962f},
{1640,0xb1b908a5209e},{1640,0x12bc948584086},{1640,0x1ee57e0e12482},{1640,0x2255ca97de531},{1640,0x22e9c0eb5b963},{1640,0x34c475ac9e275},{1640,0x39bf8c4604492},{1640,0x48e8e55042a03},{1640,0x497b31fdc744a},{1640,0x4fe97685f5598},{1640,0x56ea07bba812e},{1640,0x649599aabde38},{1640,0x64eb2a270d859},{1640,0x65681bced7263},{1640,0x687a464945bef},{1640,0x6ede0ac806219},{1640,0x78d437fad2653},{1640,0x9a0db3bdfa671},{1640,0xa2f0bc1f15988},{1640,0xa79e64d8927cd},{1640,0xaaf0d64008c30},{1640,0xb5bd4612fdc54},{1640,0xb67873c396dfb},{1640,0xc9df7a50642ae},{1640,0xd15b1321990ae},{1640,0xda1b843f4462f},{1640,0xdd46efe9c3c34},{1640,0xdd6731f4e5721},{1640,0xdef8ae75e3afa},{1640,0xe4323a6f599c8},{1640,0xe52f4514b8294},{1640,0xe5308b31f528f},{1640,0xe62c4fba16b60},{1640,0xe7295a5f7542c},{1640,0xf10bc4d526c24},{1640,0xf45de92e16a9a},{1640,0xfb5e7a63c962f},
{1641,0x12f85ccbe0e2},{1641,0x328395db2789},{1641,0x12bc948584086},{1641,0x29317db1eda99},{1641,0x2e03d07375e56},{1641,0x34c475ac9e275},{1641,0x39bf8c4604492},{1641,0x3e80ed457d3da},{1641,0x41e8541a8fe6d},{1641,0x4fe97685f5598},{1641,0x63c0addc4252f},{1641,0x64eb2a270d859},{1641,0x687a464945bef},{1641,0x83c32ae4e9be0},{1641,0x9a0db3bdfa671},{1641,0x9fc1d0070dc49},{1641,0xa2f0bc1f15988},{1641,0xa4585823d16c8},{1641,0xa5a3f874df5e4},{1641,0xb5bd4612fdc54},{1641,0xb67873c396dfb},{1641,0xbce3fa4906a31},{1641,0xbf27318f454ae},{1641,0xc9df7a50642ae},{1641,0xd15b1321990ae},{1641,0xda1b843f4462f},{1641,0xe23825249c830},{1641,0xe4b0bfc208e2e},{1641,0xe52f4514b8294},{1641,0xe5308b31f528f},{1641,0xe7295a5f7542c},{1641,0xf45de92e16a9a},{1641,0xfb5e7a63c962f},
{1642,0x12bc948584086},{1642,0x12bf01fac865d},{1642,0x1ee57e0e12482},{1642,0x262dfeebbb0f9},{1642,0x29317db1eda99},{1642,0x2e03d07375e56},{1642,0x39bf8c4604492},{1642,0x3e80ed457d3da},{1642,0x41835bd20a2d9},{1642,0x41e8541a8fe6d},{1642,0x43553763cef49},{1642,0x6103feb47a12b},{1642,0x619f98b7f4085},{1642,0x64eb2a270d859},{1642,0x655d580124e8f},{1642,0x7bf1a561ed082},{1642,0x7bf7c6965ec76},{1642,0x845131c68647c},{1642,0x9a0db3bdfa671},{1642,0x9fc1d0070dc49},{1642,0xa2f0bc1f15988},{1642,0xa4585823d16c8},{1642,0xaca489aa92179},{1642,0xae583d151b6c3},{1642,0xbce3fa4906a31},{1642,0xbceeaa232913c},{1642,0xcdf3ac4c8661b},{1642,0xce73503939840},{1642,0xd27bcec400c5d},{1642,0xd6affe45f818f},{1642,0xe23825249c830},{1642,0xe3e6f20986e3d},{1642,0xe4b0bfc208e2e},{1642,0xe4f0026b60861},{1642,0xe52f4514b8294},{1642,0xe5308b31f528f},{1642,0xe7295a5f7542c},{1642,0xf26d575060e26},{1642,0xf45de92e16a9a},{1642,0xffdf6485b1018},
{1643,0x70ce5fc3a540},{1643,0x104f110004a08},{1643,0x12bc948584086},{1643,0x1ee57e0e12482},{1643,0x262dfeebbb0f9},{1643,0x2d7beb1c1fefb},{1643,0x2e03d07375e56},{1643,0x2f8d0f5f0c6d3},{1643,0x39bf8c4604492},{1643,0x43553763cef49},{1643,0x47db130785e0d},{1643,0x6103feb47a12b},{1643,0x669edd9196da2},{1643,0x688a9ed51fbcf},{1643,0x77466ee290ff3},{1643,0x7bf1a561ed082},{1643,0x7bf7c6965ec76},{1643,0x8294f5eaf2756},{1643,0x845131c68647c},{1643,0x8f58abeeba535},{1643,0x9bd9fe7d3915d},{1643,0x9fc1d0070dc49},{1643,0xaca489aa92179},{1643,0xae583d151b6c3},{1643,0xb644c140fd967},{1643,0xbceeaa232913c},{1643,0xd065762946c37},{1643,0xd27bcec400c5d},{1643,0xdace554c57636},{1643,0xe4b0bfc208e2e},{1643,0xe4f0026b60861},{1643,0xe52f4514b8294},{1643,0xe5308b31f528f},{1643,0xe5ed0d10bf12d},{1643,0xe7295a5f7542c},{1643,0xeeb2dc4703f53},{1643,0xf3845f7293222},{1643,0xf45de92e16a9a},{1643,0xf6119c989ffe3},{1643,0xffdf6485b1018},
{1644,0x70ce5fc3a540},{1644,0x8c2ff075b8e0},{1644,0xad685e80579e},{1644,0xed94fd382ea8},{1644,0x12bc948584086},{1644,0x14de01fb0be10},{1644,0x1a8a6649535c7},{1644,0x1aee84a1ea903},{1644,0x1ee57e0e12482},{1644,0x262dfeebbb0f9},{1644,0x39bf8c4604492},{1644,0x43553763cef49},{1644,0x4398fed01a912},{1644,0x45688b34f0d8f},{1644,0x4aa8c5383b3ee},{1644,0x528fe56b8a0be},{1644,0x669edd9196da2},{1644,0x688a9ed51fbcf},{1644,0x77466ee290ff3},{1644,0x7bf1a561ed082},{1644,0x7bf7c6965ec76},{1644,0x8294f5eaf2756},{1644,0x91f57c46918b6},{1644,0x94229ce797bd5},{1644,0x9a4944ef0e9df},{1644,0xa9627e68c682b},{1644,0xc2184b261ba4a},{1644,0xc6a4b83926b34},{1644,0xd065762946c37},{1644,0xd27bcec400c5d},{1644,0xdcf4c621ef801},{1644,0xdd6526e36a325},{1644,0xe0975585825d8},{1644,0xe0fbd7d5e6531},{1644,0xe202a472932ff},{1644,0xe4b0bfc208e2e},{1644,0xe7295a5f7542c},{1644,0xe9163d593aa44},{1644,0xeeb2dc4703f53},{1644,0xf6119c989ffe3},{1644,0xfcce6308858ce},{1644,0xffdf6485b1018},
{1645,0x70deb84f7f3e},{1645,0x7867b490b9ae},{1645,0x8c2ff075b8e0},{1645,0x8fbd69563f83},{1645,0xed94fd382ea8},{1645,0x12bc948584086},{1645,0x14de01fb0be10},{1645,0x1a885b37d81cb},{1645,0x1aee84a1ea903},{1645,0x262dfeebbb0f9},{1645,0x3fa04f77ac64c},{1645,0x43553763cef49},{1645,0x45688b34f0d8f},{1645,0x45cdd2013b547},{1645,0x5c97617e90730},{1645,0x669edd9196da2},{1645,0x6cb0a65f555dd},{1645,0x7bf1a561ed082},{1645,0x7bf7c6965ec76},{1645,0x849df59491455},{1645,0x8bf22cfc78cf6},{1645,0x91f57c46918b6},{1645,0xa450c10215051},{1645,0xa9627e68c682b},{1645,0xb28701f7ccb5d},{1645,0xc2184b261ba4a},{1645,0xc9e9b1a7cc69a},{1645,0xd27bcec400c5d},{1645,0xda26341966d3a},{1645,0xdd6526e36a325},{1645,0xe0fbd7d5e6531},{1645,0xe202a472932ff},{1645,0xe4b0bfc208e2e},{1645,0xe7295a5f7542c},{1645,0xf1281f82e1b24},{1645,0xf6119c989ffe3},{1645,0xfcce6308858ce},{1645,0xffdf6485b1018},
{1646,0x6bb2b40f85e0},{1646,0x8fbd69563f83},{1646,0xed94fd382ea8},{1646,0x12bc948584086},{1646,0x14de01fb0be10},{1646,0x1a885b37d81cb},{1646,0x1aee84a1ea903},{1646,0x1ee57e0e12482},{1646,0x262dfeebbb0f9},{1646,0x2f21de02dcc26},{1646,0x4182d90dab5da},{1646,0x43553763cef49},{1646,0x45688b34f0d8f},{1646,0x45cdd2013b547},{1646,0x5c97617e90730},{1646,0x669edd9196da2},{1646,0x687b4bd2035ed},{1646,0x7bf1a561ed082},{1646,0x7bf7c6965ec76},{1646,0x8bf22cfc78cf6},{1646,0x9364d4eb90d3c},{1646,0x9e8b0e444e10a},{1646,0x9f4d02f891d18},{1646,0xa2f2c73090d84},{1646,0xa334be7650f63},{1646,0xae583d151b6c3},{1646,0xb68ce272675d3},{1646,0xb944fe6198976},{1646,0xd27bcec400c5d},{1646,0xda26341966d3a},{1646,0xdd6526e36a325},{1646,0xe0fbd7d5e6531},{1646,0xe706627c16638},{1646,0xf6119c989ffe3},{1646,0xf87f201e1f661},
{1647,0x6bb2b40f85e0},{1647,0x8fbd69563f83},{1647,0x14de01fb0be10},{1647,0x1a885b37d81cb},{1647,0x1aee84a1ea903},{1647,0x1ee57e0e12482},{1647,0x262dfeebbb0f9},{1647,0x4169f19b6a56f},{1647,0x43553763cef49},{1647,0x45688b34f0d8f},{1647,0x45cdd2013b547},{1647,0x4d8c276206d85},{1647,0x58a3d164e90c8},{1647,0x5a158279ced94},{1647,0x5ebd4fd205128},{1647,0x5fa1577b3ff35},{1647,0x64b15eb10602e},{1647,0x669edd9196da2},{1647,0x687b4bd2035ed},{1647,0x7bf1a561ed082},{1647,0x7bf7c6965ec76},{1647,0x89f2e02fb58e6},{1647,0x8f7236493ef03},{1647,0x9364d4eb90d3c},{1647,0x954586e58b6a6},{1647,0x9e8b0e444e10a},{1647,0x9f4d02f891d18},{1647,0xa2f0395ab6c89},{1647,0xa334be7650f63},{1647,0xa855f64889ef8},{1647,0xbd4717a5830b4},{1647,0xd27bcec400c5d},{1647,0xda7901f70dc9d},{1647,0xdcfee6690ffc6},{1647,0xdd6526e36a325},{1647,0xde0abe3f0ff95},{1647,0xe0fbd7d5e6531},{1647,0xe484837754c9c},
{1648,0x6bb2b40f85e0},{1648,0x6fa6dea50013},{1648,0x8fbd69563f83},{1648,0x125c22f64a473},{1648,0x14de01fb0be10},{1648,0x262dfeebbb0f9},{1648,0x3779c23a6d5d2},{1648,0x43553763cef49},{1648,0x45688b34f0d8f},{1648,0x45cdd2013b547},{1648,0x58a3d164e90c8},{1648,0x5a158279ced94},{1648,0x64b15eb10602e},{1648,0x669edd9196da2},{1648,0x6d5a8b3431ecf},{1648,0x7b976fd49b8e9},{1648,0x7bf1a561ed082},{1648,0x7bf7c6965ec76},{1648,0x7cb142b930556},{1648,0x821c5e9565847},{1648,0x89f2e02fb58e6},{1648,0x8f259739b1199},{1648,0x9364d4eb90d3c},{1648,0xa1cee1fd536b4},{1648,0xa855f64889ef8},{1648,0xd17c285d9f255},{1648,0xdcfee6690ffc6},{1648,0xe0fbd7d5e6531},{1648,0xe9884180d7fd5},{1648,0xef2950708570c},{1648,0xfa9f9da7c3e73},
{1649,0x8fbd69563f83},{1649,0x125c22f64a473},{1649,0x262dfeebbb0f9},{1649,0x2b6ed925da490},{1649,0x2e7416e3f5ec0},{1649,0x42699801cbf77},{1649,0x43553763cef49},{1649,0x550a0dedcdd4e},{1649,0x58a3d164e90c8},{1649,0x5a158279ced94},{1649,0x669edd9196da2},{1649,0x66bee477ccb53},{1649,0x687dd9a7dd6e8},{1649,0x6fb97ea6a9d37},{1649,0x7b976fd49b8e9},{1649,0x7bf7c6965ec76},{1649,0x89f2e02fb58e6},{1649,0x9364d4eb90d3c},{1649,0xa1cee1fd536b4},{1649,0xa855f64889ef8},{1649,0xbf66e43331b3d},{1649,0xcba7de5054485},{1649,0xcbbfa35c87b02},{1649,0xd07c81f73d84d},{1649,0xd17c285d9f255},{1649,0xdcfee6690ffc6},{1649,0xdd7479e686907},{1649,0xee330913d324f},{1649,0xef2950708570c},
{1650,0x1be259311ba4},{1650,0x39021db5b22f},{1650,0x8fbd69563f83},{1650,0x1172fe98cc8f1},{1650,0x1a2ff9402720c},{1650,0x3b6c0b352093f},{1650,0x42699801cbf77},{1650,0x550a0dedcdd4e},{1650,0x5a158279ced94},{1650,0x669edd9196da2},{1650,0x687dd9a7dd6e8},{1650,0x7237bf84e53b5},{1650,0x7b976fd49b8e9},{1650,0x7bf7c6965ec76},{1650,0x8436dfc77522b},{1650,0x89f2e02fb58e6},{1650,0x8af28696172ee},{1650,0x9364d4eb90d3c},{1650,0x9ad15be6fc847},{1650,0xa1cee1fd536b4},{1650,0xa855f64889ef8},{1650,0xad923e9fc8367},{1650,0xb09ae318428f9},{1650,0xbf66e43331b3d},{1650,0xc7bfa853ff992},{1650,0xd07c81f73d84d},{1650,0xd17c285d9f255},{1650,0xd9720643610d1},{1650,0xdcfee6690ffc6},{1650,0xdd7479e686907},{1650,0xf854429bc7219},{1650,0xfa96e89eee44f},
{1651,0x39021db5b22f},{1651,0x2ccecfd2f3b98},{1651,0x2ed2d22a94fe1},{1651,0x3b6c0b352093f},{1651,0x4249a334ffc36},{1651,0x42e96b34fcc7b},{1651,0x4906db5bb8919},{1651,0x4a0946974d6e6},{1651,0x550a0dedcdd4e},{1651,0x5a158279ced94},{1651,0x7b976fd49b8e9},{1651,0x7fd002978e0e5},{1651,0x8436dfc77522b},{1651,0x855832c908b46},{1651,0x85ab8b3ef4d4f},{1651,0x89f2e02fb58e6},{1651,0x9302e0e264470},{1651,0xa1cee1fd536b4},{1651,0xaca1046d778db},{1651,0xad923e9fc8367},{1651,0xb09ae318428f9},{1651,0xbf66e43331b3d},{1651,0xc7bfa853ff992},{1651,0xce32e54e20d82},{1651,0xd17c285d9f255},{1651,0xd57ac1f725a75},{1651,0xd9720643610d1},{1651,0xdbdd93677c6ab},{1651,0xdcfee6690ffc6},{1651,0xdd7479e686907},
{1652,0x6d950d9a519a},{1652,0x2925969a04f72},{1652,0x3b6c0b352093f},{1652,0x4249a334ffc36},{1652,0x48d1b820f132d},{1652,0x4906db5bb8919},{1652,0x550a0dedcdd4e},{1652,0x58bde6bc3f364},{1652,0x7b976fd49b8e9},{1652,0x88736696231da},{1652,0x89b2f6961d264},{1652,0x89f2e02fb58e6},{1652,0x91e3e10bd1770},{1652,0x9302e0e264470},{1652,0xa1cee1fd536b4},{1652,0xaca1046d778db},{1652,0xad923e9fc8367},{1652,0xb09ae318428f9},{1652,0xb1900292bdb2b},{1652,0xbf66e43331b3d},{1652,0xc7bfa853ff992},{1652,0xcba7de5054485},{1652,0xd1bc11f7378d7},{1652,0xd57ac1f725a75},{1652,0xdaf609f6b1bb3},{1652,0xdcfee6690ffc6},{1652,0xdd7479e686907},{1652,0xfba1dea3460a2},
{1653,0x6d950d9a519a},{1653,0x137d75f7ddd8e},{1653,0x1f48eaf234ad3},{1653,0x2507d0eccf548},{1653,0x2925969a04f72},{1653,0x2b6419c06fc79},{1653,0x3b6c0b352093f},{1653,0x3d0e29c4ba598},{1653,0x41a9db3502bf1},{1653,0x4249a334ffc36},{1653,0x48d1b820f132d},{1653,0x4906db5bb8919},{1653,0x4bda2adfa97dd},{1653,0x52ff00c1a48ef},{1653,0x550a0dedcdd4e},{1653,0x58bde6bc3f364},{1653,0x661e41b25aa8e},{1653,0x71ec1ba15a8b0},{1653,0x7b976fd49b8e9},{1653,0x88736696231da},{1653,0x91e3e10bd1770},{1653,0x9302e0e264470},{1653,0xa1cee1fd536b4},{1653,0xaca1046d778db},{1653,0xad923e9fc8367},{1653,0xb09ae318428f9},{1653,0xb1900292bdb2b},{1653,0xbfc7148ad819a},{1653,0xc7bfa853ff992},{1653,0xd57ac1f725a75},{1653,0xdcfee6690ffc6},{1653,0xdd7479e686907},{1653,0xfba1dea3460a2},
{1654,0xaadcda86dd0a},{1654,0x137d75f7ddd8e},{1654,0x1fab8a9f48b28},{1654,0x2507d0eccf548},{1654,0x2b6419c06fc79},{1654,0x2e4228a9cb354},{1654,0x341eb46ef72e9},{1654,0x3b6c0b352093f},{1654,0x3c62b63d7fd25},{1654,0x3d0e29c4ba598},{1654,0x41a9db3502bf1},{1654,0x4249a334ffc36},{1654,0x5433f273ad362},{1654,0x550a0dedcdd4e},{1654,0x6c7b2c301bff0},{1654,0x71ec1ba15a8b0},{1654,0x783e2e3076eaa},{1654,0x79d62b33f6433},{1654,0x7b976fd49b8e9},{1654,0x88736696231da},{1654,0x8a68913c52f74},{1654,0x9302e0e264470},{1654,0x9710a1f84ff81},{1654,0xa696e4bdcb7b4},{1654,0xa77581053543b},{1654,0xaca1046d778db},{1654,0xaeed606b4f03d},{1654,0xb09ae318428f9},{1654,0xbfc7148ad819a},{1654,0xc30985586c4d6},{1654,0xd25bd9f73491c},{1654,0xd3539235cef8d},{1654,0xd57ac1f725a75},{1654,0xdcfee6690ffc6},{1654,0xe1b0c37ba2d1a},{1654,0xe2fb3f348f187},{1654,0xf7c3991afd58c},{1654,0xf823bb8dc921a},{1654,0xfba1dea3460a2},
{1655,0xaadcda86dd0a},{1655,0x10ebabffb20af},{1655,0x1e2c78c512bfb},{1655,0x1fab8a9f48b28},{1655,0x23ddfbb694151},{1655,0x2aeb7ca747733},{1655,0x2b6419c06fc79},{1655,0x2e4228a9cb354},{1655,0x3a5acc468b43b},{1655,0x4249a334ffc36},{1655,0x4b3ecad4567cc},{1655,0x4dfe790d6fb3e},{1655,0x5433f273ad362},{1655,0x550a0dedcdd4e},{1655,0x60a284c617be2},{1655,0x671b25aec1d88},{1655,0x6fb94f9510661},{1655,0x7408ab229dd0f},{1655,0x79ec56dd15efa},{1655,0x7b976fd49b8e9},{1655,0x88736696231da},{1655,0x8a68913c52f74},{1655,0x9302e0e264470},{1655,0x9710a1f84ff81},{1655,0x9bdd2f6e63012},{1655,0xa517d2e395887},{1655,0xa696e4bdcb7b4},{1655,0xa77581053543b},{1655,0xad67a046abd7b},{1655,0xaeed606b4f03d},{1655,0xb40e8569b1049},{1655,0xc30985586c4d6},{1655,0xc5633cfeb0cfe},{1655,0xc9cb112668d40},{1655,0xd3539235cef8d},{1655,0xd57ac1f725a75},{1655,0xdcfee6690ffc6},{1655,0xe022cae3303c4},{1655,0xe2fb3f348f187},{1655,0xe54f8bcfaebd5},{1655,0xeea9510f746de},{1655,0xf52597d95d3c0},{1655,0xfba1dea3460a2},{1655,0xfc2b6d42b55ce},
{1656,0x16a67f3f6c08b},{1656,0x1cb5a1847a050},{1656,0x1f48eaf234ad3},{1656,0x4249a334ffc36},{1656,0x4b3ecad4567cc},{1656,0x4dfe790d6fb3e},{1656,0x4fb95ea401d97},{1656,0x550a0dedcdd4e},{1656,0x671b25aec1d88},{1656,0x6f136951b1624},{1656,0x6fb94f9510661},{1656,0x88736696231da},{1656,0x9186786ce8692},{1656,0x9710a1f84ff81},{1656,0xa696e4bdcb7b4},{1656,0xa77581053543b},{1656,0xaeed606b4f03d},{1656,0xbac71ac02dfce},{1656,0xc23a33b722a01},{1656,0xdcfee6690ffc6},{1656,0xe34682cf80640},{1656,0xe51549f6db132},{1656,0xe54f8bcfaebd5},{1656,0xeea9510f746de},{1656,0xf4312ba7cc364},{1656,0xf52597d95d3c0},{1656,0xf6bf9b27dc2f2},{1656,0xf7c3991afd58c},{1656,0xfba1dea3460a2},
{1657,0x1482fbbc52b38},{1657,0x16a67f3f6c08b},{1657,0x1f48eaf234ad3},{1657,0x3a6ebe9798029},{1657,0x4249a334ffc36},{1657,0x4dfe790d6fb3e},{1657,0x4fb95ea401d97},{1657,0x550a0dedcdd4e},{1657,0x58ae86435892d},{1657,0x5f0e002250a63},{1657,0x6383d5f2212ff},{1657,0x671b25aec1d88},{1657,0x6bc6408a5f807},{1657,0x6f136951b1624},{1657,0x6fb94f9510661},{1657,0x79d2b2d43e029},{1657,0x88736696231da},{1657,0x9710a1f84ff81},{1657,0xa696e4bdcb7b4},{1657,0xa77581053543b},{1657,0xaeed606b4f03d},{1657,0xb284b027efac6},{1657,0xb6c458467f186},{1657,0xb90355f780d9a},{1657,0xbac71ac02dfce},{1657,0xbd64899d821e4},{1657,0xdb347cb1ba038},{1657,0xdcfee6690ffc6},{1657,0xf1e7747468d4f},{1657,0xf3b2855907ed9},{1657,0xf52597d95d3c0},{1657,0xf7c3991afd58c},{1657,0xf863bb3e51a31},{1657,0xfba1dea3460a2},{1657,0xff2f506e2742a},
{1658,0x1482fbbc52b38},{1658,0x16a67f3f6c08b},{1658,0x21b2433541d03},{1658,0x3ada3fb0de577},{1658,0x4d8eb4aac016d},{1658,0x4dfe790d6fb3e},{1658,0x5f0e002250a63},{1658,0x6383d5f2212ff},{1658,0x671b25aec1d88},{1658,0x6bc6408a5f807},{1658,0x6f136951b1624},{1658,0x6fb94f9510661},{1658,0x79d2b2d43e029},{1658,0x7a4aaee59d979},{1658,0x8380e7827846c},{1658,0x88736696231da},{1658,0x9f9bdf6e511b0},{1658,0xa696e4bdcb7b4},{1658,0xa77581053543b},{1658,0xaeed606b4f03d},{1658,0xb284b027efac6},{1658,0xb8cb25f79dada},{1658,0xb8e9f5cdd6c19},{1658,0xbac71ac02dfce},{1658,0xbd64899d821e4},{1658,0xc56193a8abf2d},{1658,0xeb6b2daa8006d},{1658,0xefdd01e819e13},{1658,0xf3b2855907ed9},{1658,0xf52597d95d3c0},{1658,0xf677690217ef0},{1658,0xf7c3991afd58c},{1658,0xfba1dea3460a2},
{1659,0xd545c4311626},{1659,0x122beb6fc0ac0},{1659,0x1482fbbc52b38},{1659,0x16a67f3f6c08b},{1659,0x21b2433541d03},{1659,0x3a37c0f8e99d7},{1659,0x3ada3fb0de577},{1659,0x4a509145cbafc},{1659,0x4cf41fe9977ed},{1659,0x4d8eb4aac016d},{1659,0x4dfe790d6fb3e},{1659,0x5f0e002250a63},{1659,0x671b25aec1d88},{1659,0x68bfb047f3fd5},{1659,0x6f136951b1624},{1659,0x6fb94f9510661},{1659,0x734e1387c456d},{1659,0x7a4aaee59d979},{1659,0x8341c093c2f4f},{1659,0x88736696231da},{1659,0x88cc3e0897aa3},{1659,0x8bec930cf729f},{1659,0x9407a3023a1c5},{1659,0xa92cf61098e32},{1659,0xbac71ac02dfce},{1659,0xbd64899d821e4},{1659,0xc0e1ef1a724ea},{1659,0xcae5063056d50},{1659,0xd9edf94fcd06a},{1659,0xdbd0c521273ee},{1659,0xdf0bd8996d6f7},{1659,0xeb6b2daa8006d},{1659,0xf52597d95d3c0},{1659,0xfba1dea3460a2},
{1660,0x4eebca9db401},{1660,0x7904e761b3e3},{1660,0xd545c4311626},{1660,0x16a67f3f6c08b},{1660,0x19ac7e5b79a5d},{1660,0x2890ce7e197b7},{1660,0x28bdd8159ff13},{1660,0x28c05f7825301},{1660,0x3a37c0f8e99d7},{1660,0x3ada3fb0de577},{1660,0x43e72fcd3aeb2},{1660,0x4a509145cbafc},{1660,0x4cf41fe9977ed},{1660,0x4dfe790d6fb3e},{1660,0x5f0e002250a63},{1660,0x671b25aec1d88},{1660,0x68bfb047f3fd5},{1660,0x6abdf33757b66},{1660,0x6fb94f9510661},{1660,0x7127e05b09cd9},{1660,0x7843f64fa479e},{1660,0x82dfa2f09a964},{1660,0x93fe8a649a139},{1660,0x9407a3023a1c5},{1660,0xa0db19eb3735e},{1660,0xa2f937f488dcf},{1660,0xa92cf61098e32},{1660,0xbcd7b5663d910},{1660,0xc1d81613fa415},{1660,0xcba94176a7927},{1660,0xd3c48d3205231},{1660,0xdc8a0c80d9f03},{1660,0xdf0bd8996d6f7},{1660,0xf52597d95d3c0},
{1661,0x4eebca9db401},{1661,0x7904e761b3e3},{1661,0x16a67f3f6c08b},{1661,0x19ac7e5b79a5d},{1661,0x2617966ad01ad},{1661,0x28bdd8159ff13},{1661,0x31cd4f9481c3c},{1661,0x3a37c0f8e99d7},{1661,0x3ada3fb0de577},{1661,0x4174a6cadc654},{1661,0x43e72fcd3aeb2},{1661,0x459d94dd8d3be},{1661,0x4c3b93d5582ba},{1661,0x4cf41fe9977ed},{1661,0x4dcbf8bc2aad4},{1661,0x4dfe790d6fb3e},{1661,0x56011005f4128},{1661,0x671b25aec1d88},{1661,0x6dd6db306f149},{1661,0x7127e05b09cd9},{1661,0x7843f64fa479e},{1661,0x82dfa2f09a964},{1661,0x92c286fbc2d9a},{1661,0xa0db19eb3735e},{1661,0xa2a4de6466f6c},{1661,0xa2f937f488dcf},{1661,0xa7079e0bd15d5},{1661,0xb6b4c71480daf},{1661,0xc65e8e22288b3},{1661,0xcba94176a7927},{1661,0xceaf10dc328cb},{1661,0xdc8a0c80d9f03},{1661,0xe832b128f27ad},
{1662,0x5401c55e7b6c},{1662,0x13d5e44407684},{1662,0x16a67f3f6c08b},{1662,0x19ac7e5b79a5d},{1662,0x3a37c0f8e99d7},{1662,0x3ada3fb0de577},{1662,0x3f60b7bf0ca15},{1662,0x4174a6cadc654},{1662,0x4237bc5013ae9},{1662,0x43e72fcd3aeb2},{1662,0x486da7db69350},{1662,0x4c3b93d5582ba},{1662,0x4cf41fe9977ed},{1662,0x4dcbf8bc2aad4},{1662,0x4dfe790d6fb3e},{1662,0x5960352841abf},{1662,0x6488672fac7be},{1662,0x671b25aec1d88},{1662,0x6dd6db306f149},{1662,0x7127e05b09cd9},{1662,0x7abb6833a379a},{1662,0x7ec03d198d480},{1662,0x92c286fbc2d9a},{1662,0x9e6890e8d8b00},{1662,0xa0db19eb3735e},{1662,0xa2f937f488dcf},{1662,0xa7079e0bd15d5},{1662,0xa93b3c91eec7a},{1662,0xb15b59ef36548},{1662,0xb6b4c71480daf},{1662,0xc0e1ef1a724ea},{1662,0xc201380564835},{1662,0xd353d3e3ff410},{1662,0xe16a08b9653e0},{1662,0xe28c7aa2d47af},{1662,0xe832b128f27ad},
{1663,0x5401c55e7b6c},{1663,0x11c16d3aaefcf},{1663,0x16a67f3f6c08b},{1663,0x188d357087712},{1663,0x19ac7e5b79a5d},{1663,0x2d46d7865379f},{1663,0x36a37fe3fcafe},{1663,0x3f60b7bf0ca15},{1663,0x4174a6cadc654},{1663,0x43c1acc5f45d3},{1663,0x43e72fcd3aeb2},{1663,0x486da7db69350},{1663,0x4c3b93d5582ba},{1663,0x4dcbf8bc2aad4},{1663,0x5a878814225c6},{1663,0x6dd6db306f149},{1663,0x7088ae006fa95},{1663,0x7127e05b09cd9},{1663,0x7abb6833a379a},{1663,0x88c1620aa810d},{1663,0x88c5b1372404d},{1663,0x92c286fbc2d9a},{1663,0xa0db19eb3735e},{1663,0xa7079e0bd15d5},{1663,0xacad48c1fe243},{1663,0xb236d9d55e4ec},{1663,0xc0e1ef1a724ea},{1663,0xd08e537b649e3},{1663,0xe3978bacc13bd},{1663,0xe81e03baef85a},{1663,0xec02c7c92ec4e},{1663,0xf036b4115f3c8},{1663,0xf797043545c39},
{1664,0x4a1e7263c4a2},{1664,0x19ac7e5b79a5d},{1664,0x2d46d7865379f},{1664,0x2eb71590b7018},{1664,0x36a37fe3fcafe},{1664,0x3ec20952c6185},{1664,0x4174a6cadc654},{1664,0x42cf3d43e2c27},{1664,0x43c1acc5f45d3},{1664,0x43e72fcd3aeb2},{1664,0x4dcbf8bc2aad4},{1664,0x5a878814225c6},{1664,0x637b7e047dd2a},{1664,0x7088ae006fa95},{1664,0x7127e05b09cd9},{1664,0x7abb6833a379a},{1664,0x7d32da17a2796},{1664,0x8eea948e83f8e},{1664,0x92c286fbc2d9a},{1664,0x960299c415386},{1664,0x9ce76042acb91},{1664,0xa0db19eb3735e},{1664,0xa7079e0bd15d5},{1664,0xb7aa7b2ea1b46},{1664,0xd08e537b649e3},{1664,0xd44e1dc474d7f},{1664,0xda8a9b9064a82},{1664,0xe06e8b5d17c63},{1664,0xe3978bacc13bd},{1664,0xe4530a39559c3},{1664,0xe81e03baef85a},{1664,0xf12af3d74c195},
{1665,0x626f884978},{1665,0x67bd547e736a},{1665,0x188d357087712},{1665,0x19ac7e5b79a5d},{1665,0x2eb71590b7018},{1665,0x3a87fec03a85e},{1665,0x3d34a650db49b},{1665,0x3ec20952c6185},{1665,0x43e72fcd3aeb2},{1665,0x4dcbf8bc2aad4},{1665,0x6ca42f2431d35},{1665,0x6f1b731c10a62},{1665,0x7127e05b09cd9},{1665,0x7abb6833a379a},{1665,0x7d32da17a2796},{1665,0x80093a74c6e34},{1665,0x92c286fbc2d9a},{1665,0x9a8911d243824},{1665,0xa4d3d028cb29b},{1665,0xa4d3d028cb29c},{1665,0xa87b9caec3b7c},{1665,0xca3f323bf93e5},{1665,0xd08e537b649e3},{1665,0xda8a9b9064a82},{1665,0xe06e8b5d17c63},{1665,0xe4530a39559c3},{1665,0xedbf422d603cc},{1665,0xf12af3d74c195},{1665,0xfa147ba15b3b8},
{1666,0x626f884978},{1666,0x67bd547e736a},{1666,0xee7811241ad2},{1666,0x188d357087712},{1666,0x19ac7e5b79a5d},{1666,0x3126569ce8a7b},{1666,0x37200fbf846aa},{1666,0x3d34a650db49b},{1666,0x409b9ebdc5582},{1666,0x43e72fcd3aeb2},{1666,0x4b1742c6c1171},{1666,0x5eb082cca94d7},{1666,0x6f8f8e496033d},{1666,0x70dda0a3a77aa},{1666,0x7127e05b09cd9},{1666,0x74eb6da7da0fe},{1666,0x7abb6833a379a},{1666,0x9a8911d243824},{1666,0xa4869af673ab9},{1666,0xa87b9caec3b7c},{1666,0xb1296a192af37},{1666,0xb393493f52fbb},{1666,0xb5790e22815b1},{1666,0xb64aaef1247d8},{1666,0xba89d6b154153},{1666,0xd08e537b649e3},{1666,0xd3683fa3d1ee0},{1666,0xeaf71d84ed060},{1666,0xf12af3d74c195},{1666,0xfa147ba15b3b8},
{1667,0x67bd547e736a},{1667,0x70462197efa1},{1667,0xee7811241ad2},{1667,0x1775458b899c9},{1667,0x1c0ef94ebc55c},{1667,0x30591dd84c866},{1667,0x31199083f9b17},{1667,0x37200fbf846aa},{1667,0x3e9abaa26f157},{1667,0x4276043dd78bf},{1667,0x43e72fcd3aeb2},{1667,0x462427b9370d2},{1667,0x5dab8378b468e},{1667,0x70dda0a3a77aa},{1667,0x7127e05b09cd9},{1667,0x74eb6da7da0fe},{1667,0x765f6c4acc6a5},{1667,0x77d36aedbec4c},{1667,0x7a1d8bbaa3b9b},{1667,0x7abb6833a379a},{1667,0xa87b9caec3b7c},{1667,0xaa897441cbcbb},{1667,0xb1296a192af37},{1667,0xb5790e22815b1},{1667,0xb64aaef1247d8},{1667,0xba89d6b154153},{1667,0xbee93dbda61d0},{1667,0xd12a2ef83b866},{1667,0xd3683fa3d1ee0},{1667,0xda97cd12bb053},{1667,0xe0eb1b389f80f},{1667,0xf12af3d74c195},{1667,0xfa147ba15b3b8},
{1668,0x67bd547e736a},{1668,0x70462197efa1},{1668,0x10960d92f27ae},{1668,0x1775458b899c9},{1668,0x1c0ef94ebc55c},{1668,0x2c423324cd9a3},{1668,0x37200fbf846aa},{1668,0x3e9abaa26f157},{1668,0x43e72fcd3aeb2},{1668,0x5d764b0bb063d},{1668,0x6c3375d62bf14},{1668,0x70395623b1c48},{1668,0x70dda0a3a77aa},{1668,0x7127e05b09cd9},{1668,0x7280e240edbf8},{1668,0x765f6c4acc6a5},{1668,0x77385207835b7},{1668,0x77d36aedbec4c},{1668,0x7abb6833a379a},{1668,0x7b04a6be9543d},{1668,0x97cb4cee928a6},{1668,0xa83d54c0ffda6},{1668,0xa87b9caec3b7c},{1668,0xa968de647f255},{1668,0xaa897441cbcbb},{1668,0xb5790e22815b1},{1668,0xbee93dbda61d0},{1668,0xd82f95493fdc8},{1668,0xd96e4a2de48ef},{1668,0xddda967c143c0},{1668,0xe12a9167c3cfe},{1668,0xf12af3d74c195},{1668,0xfa147ba15b3b8},
{1669,0x95ab236a316},{1669,0x67bd547e736a},{1669,0x70462197efa1},{1669,0x10960d92f27ae},{1669,0x209670027ac45},{1669,0x2125f42d605e4},{1669,0x36e1c7d1c08d4},{1669,0x37200fbf846aa},{1669,0x38192f7693e02},{1669,0x4007b0b6a5bd6},{1669,0x4f23911b3ce08},{1669,0x5d764b0bb063d},{1669,0x5eb082cca94d7},{1669,0x6faeb24042228},{1669,0x70395623b1c48},{1669,0x70dda0a3a77aa},{1669,0x7127e05b09cd9},{1669,0x7280e240edbf8},{1669,0x73776f04e7b57},{1669,0x765f6c4acc6a5},{1669,0x7abb6833a379a},{1669,0x97cb4cee928a6},{1669,0xa87b9caec3b7c},{1669,0xb5790e22815b1},{1669,0xb65ca37fd3a0d},{1669,0xc129cc88b33cf},{1669,0xd96e4a2de48ef},{1669,0xdb308efe04f8f},{1669,0xe0acd34adba39},{1669,0xe92208754d8c0},{1669,0xf262aad0f9e9b},{1669,0xf2ebe5f33d7eb},{1669,0xfa147ba15b3b8},
{1670,0x95ab236a316},{1670,0x67bd547e736a},{1670,0x70462197efa1},{1670,0x8ba0b2f6bf65},{1670,0x10960d92f27ae},{1670,0x1ad8be7f258eb},{1670,0x3096d272030dd},{1670,0x32da72731423c},{1670,0x37200fbf846aa},{1670,0x38192f7693e02},{1670,0x5eb082cca94d7},{1670,0x6faeb24042228},{1670,0x70395623b1c48},{1670,0x704a6612abcbf},{1670,0x73776f04e7b57},{1670,0x765f6c4acc6a5},{1670,0x8098be9fac7d2},{1670,0x88e0b1ece36ed},{1670,0x90099ce44f2cb},{1670,0x97cb4cee928a6},{1670,0x98e1145c6bb85},{1670,0xa87b9caec3b7c},{1670,0xb4a5a91f04f48},{1670,0xb5790e22815b1},{1670,0xc129cc88b33cf},{1670,0xc2c5478df9639},{1670,0xc73d221d322d0},{1670,0xd96e4a2de48ef},{1670,0xe0acd34adba39},{1670,0xf19b420b5463c},{1670,0xf2ebe5f33d7eb},{1670,0xfa147ba15b3b8},
{1671,0x67bd547e736a},{1671,0x70462197efa1},{1671,0x9cee3a2c538c},{1671,0xd21f1fda33ae},{1671,0x10960d92f27ae},{1671,0x1ad8be7f258eb},{1671,0x2e60818a4f502},{1671,0x3096d272030dd},{1671,0x32da72731423c},{1671,0x38192f7693e02},{1671,0x54bb90f7af199},{1671,0x54d6040e89e89},{1671,0x6faeb24042228},{1671,0x70395623b1c48},{1671,0x704a6612abcbf},{1671,0x73776f04e7b57},{1671,0x765f6c4acc6a5},{1671,0x78e04f7d5b256},{1671,0x84ebf82e41c32},{1671,0x90099ce44f2cb},{1671,0x98e1145c6bb85},{1671,0xa87b9caec3b7c},{1671,0xb2328ae7f4d15},{1671,0xb5790e22815b1},{1671,0xbc1f2ad83d5f5},{1671,0xc73d221d322d0},{1671,0xc8e23bab0494b},{1671,0xdc47b9526f88b},{1671,0xdd0697c128570},{1671,0xe0acd34adba39},{1671,0xeeff31dd5df79},{1671,0xf19b420b5463c},{1671,0xf2ebe5f33d7eb},{1671,0xf5d7ded657cfa},{1671,0xf81dbc06335f5},{1671,0xfa147ba15b3b8},{1671,0xfd1348821c6e3},
{1672,0x70462197efa1},{1672,0x9cee3a2c538c},{1672,0xd21f1fda33ae},{1672,0x11a8be96cc606},{1672,0x3096d272030dd},{1672,0x33f2ffa884ab3},{1672,0x38192f7693e02},{1672,0x48c57a9fdeb89},{1672,0x54bb90f7af199},{1672,0x696f7138b875d},{1672,0x6faeb24042228},{1672,0x73776f04e7b57},{1672,0x78e04f7d5b256},{1672,0x7de1ecdbe287d},{1672,0x7f910f0fd92cb},{1672,0x84ebf82e41c32},{1672,0x90099ce44f2cb},{1672,0x9d27f3b2b775a},{1672,0xa5711992b3689},{1672,0xa87b9caec3b7c},{1672,0xb2328ae7f4d15},{1672,0xb5790e22815b1},{1672,0xb65ca37fd3a0d},{1672,0xb8c10e053f385},{1672,0xb8cc1c7d5f5d3},{1672,0xba75a3aace5e4},{1672,0xbc1f2ad83d5f5},{1672,0xc73d221d322d0},{1672,0xc8193da5ff4b5},{1672,0xc8e23bab0494b},{1672,0xdd3df43b7c9a8},{1672,0xe0acd34adba39},{1672,0xe3b75666ebf2c},{1672,0xed06fa30b0a08},{1672,0xf19b420b5463c},{1672,0xf2ebe5f33d7eb},{1672,0xf7f62d3bd9859},{1672,0xfa147ba15b3b8},
{1673,0x70462197efa1},{1673,0x9cee3a2c538c},{1673,0x9fca6c66c56e},{1673,0xd21f1fda33ae},{1673,0x11a8be96cc606},{1673,0x142a830ea859d},{1673,0x1aa83b9e045c0},{1673,0x1b240f00e322b},{1673,0x1d7bb0e101d2a},{1673,0x3096d272030dd},{1673,0x38192f7693e02},{1673,0x41beb2b6843af},{1673,0x434ab894ac136},{1673,0x474dbf02e56c1},{1673,0x4b4a5b628711c},{1673,0x4d0321d55dc1d},{1673,0x4f9f1116fb656},{1673,0x51bd5f7c7d1b5},{1673,0x54bb90f7af199},{1673,0x617b77a4a1bd3},{1673,0x672adcbe7ade6},{1673,0x73776f04e7b57},{1673,0x7f910f0fd92cb},{1673,0x84ebf82e41c32},{1673,0x9d27f3b2b775a},{1673,0xb2f3a4d705e2f},{1673,0xb5790e22815b1},{1673,0xba75a3aace5e4},{1673,0xbd7a9aaeff7b0},{1673,0xc73d221d322d0},{1673,0xc8193da5ff4b5},{1673,0xc8e23bab0494b},{1673,0xdd3df43b7c9a8},{1673,0xe54e8b0e5f48b},{1673,0xf19b420b5463c},{1673,0xf7f62d3bd9859},{1673,0xfa147ba15b3b8},{1673,0xfc32ca06dcf17},
{1674,0x4d24e1a78359},{1674,0x70462197efa1},{1674,0x9cee3a2c538c},{1674,0x9fca6c66c56e},{1674,0xd21f1fda33ae},{1674,0x21e2c9d184ca0},{1674,0x2e798cfca9b91},{1674,0x3096d272030dd},{1674,0x37b1e64ad9bad},{1674,0x3eccfa23b067d},{1674,0x41beb2b6843af},{1674,0x474dbf02e56c1},{1674,0x4b4a5b628711c},{1674,0x4d80c2b179af7},{1674,0x54bb90f7af199},{1674,0x5d51d249dca42},{1674,0x617b77a4a1bd3},{1674,0x622243a6c9cb8},{1674,0x739d4d80f478b},{1674,0x7f910f0fd92cb},{1674,0x84ebf82e41c32},{1674,0x99acae40b9a90},{1674,0x9d27f3b2b775a},{1674,0xa4d9c65c2b507},{1674,0xb2f3a4d705e2f},{1674,0xb39f427a3a4e3},{1674,0xb5790e22815b1},{1674,0xba75a3aace5e4},{1674,0xbcf9f036a6e7b},{1674,0xbdc8b205ac606},{1674,0xc73d221d322d0},{1674,0xc8193da5ff4b5},{1674,0xc8e23bab0494b},{1674,0xcffd4f83db41b},{1674,0xd718635cb1eeb},{1674,0xe4608ee65e274},{1674,0xef7bc1b8e5b25},{1674,0xefe598f567678},{1674,0xfc32ca06dcf17},
{1675,0x11f9e62fe4448},{1675,0x21e2c9d184ca0},{1675,0x2610dda7244ad},{1675,0x2c54c4249a209},{1675,0x2e798cfca9b91},{1675,0x3096d272030dd},{1675,0x3138e701e4476},{1675,0x37b1e64ad9bad},{1675,0x3851b2ba68941},{1675,0x3b129583e01b9},{1675,0x3eccfa23b067d},{1675,0x474dbf02e56c1},{1675,0x4d80c2b179af7},{1675,0x5d51d249dca42},{1675,0x622243a6c9cb8},{1675,0x68e2eedba6c49},{1675,0x6d475aa413588},{1675,0x7d3ce2fe4a0ce},{1675,0x7f910f0fd92cb},{1675,0x84ebf82e41c32},{1675,0x85dbc09c1329d},{1675,0x8e4bf3a8cc14e},{1675,0x981a33b731dae},{1675,0x9af6d947d666c},{1675,0xa4c7e11341341},{1675,0xa4d9c65c2b507},{1675,0xba75a3aace5e4},{1675,0xbaac13f9573ab},{1675,0xc8193da5ff4b5},{1675,0xce67f9cc026b0},{1675,0xcffd4f83db41b},{1675,0xd718635cb1eeb},{1675,0xe4608ee65e274},{1675,0xe69f53acd0a7a},{1675,0xf7d389020d7d6},{1675,0xfc32ca06dcf17},
{1676,0xb56cefdd929d},{1676,0x11f9e62fe4448},{1676,0x1b4596e77f06d},{1676,0x2596856d074db},{1676,0x34245c5e6e645},{1676,0x37b1e64ad9bad},{1676,0x3eccfa23b067d},{1676,0x474dbf02e56c1},{1676,0x56785fbbdd55a},{1676,0x5d51d249dca42},{1676,0x65755201a7cda},{1676,0x6d475aa413588},{1676,0x792d4486d27ff},{1676,0x981a33b731dae},{1676,0x9a423e60a2c2c},{1676,0x9af6d947d666c},{1676,0xa200f5585b9c3},{1676,0xa4d9c65c2b507},{1676,0xba75a3aace5e4},{1676,0xbaac13f9573ab},{1676,0xca766da5cc8d7},{1676,0xcffd4f83db41b},{1676,0xd08a7babcf82f},{1676,0xd38ad97046983},{1676,0xde337735889bb},{1676,0xdf7552d3cf77e},{1676,0xe4608ee65e274},{1676,0xe69f53acd0a7a},{1676,0xfc32ca06dcf17},{1676,0xfcb42badd1cc5},{1676,0xfce925cfffafe},
{1677,0x3f050b5b7924},{1677,0x811a0d254548},{1677,0x21d440dc20def},{1677,0x2596856d074db},{1677,0x2d09488597b75},{1677,0x30fbfe1c7a7ef},{1677,0x35eb2154a40f9},{1677,0x37b1e64ad9bad},{1677,0x3eccfa23b067d},{1677,0x5015ea44c317b},{1677,0x5d51d249dca42},{1677,0x5e7896eb77298},{1677,0x654c9676f7fe5},{1677,0x65755201a7cda},{1677,0x6d475aa413588},{1677,0x71b2478cdc765},{1677,0x74a75a2da0842},{1677,0x8f0385717ee83},{1677,0xa4d9c65c2b507},{1677,0xad1d7c0cee2a0},{1677,0xbd36160dd2ef5},{1677,0xcc6fc5976feb3},{1677,0xcffd4f83db41b},{1677,0xd1c4147a10ecf},{1677,0xd38ad97046983},{1677,0xdb52ee4764982},{1677,0xde337735889bb},{1677,0xdf7552d3cf77e},{1677,0xe4608ee65e274},{1677,0xfc32ca06dcf17},{1677,0xfcb42badd1cc5},
{1678,0x3df4bd7292f5},{1678,0x811a0d254548},{1678,0x19f423d82a540},{1678,0x2596856d074db},{1678,0x2d09488597b75},{1678,0x35eb2154a40f9},{1678,0x36ce83cfbee53},{1678,0x3eccfa23b067d},{1678,0x4b059ccfc7d36},{1678,0x5d51d249dca42},{1678,0x5e7896eb77298},{1678,0x6d475aa413588},{1678,0x71b2478cdc765},{1678,0x74a75a2da0842},{1678,0x7806798969ed9},{1678,0x7ba50e14fe2ab},{1678,0x8537a72b65671},{1678,0x8f0385717ee83},{1678,0x99eea5e6d51c5},{1678,0xa4d9c65c2b507},{1678,0xa8e8625b3e8a3},{1678,0xb3c11da127cff},{1678,0xb4df8d0499fe8},{1678,0xc3b82eee39ba9},{1678,0xcc6fc5976feb3},{1678,0xcdd58d0195f6e},{1678,0xd0e0b1fef6175},{1678,0xd1c4147a10ecf},{1678,0xd2a776f52bc29},{1678,0xd3dd8a06ad851},{1678,0xd5519e667c437},{1678,0xd5675258778b6},{1678,0xdb52ee4764982},{1678,0xe5b55828953c5},{1678,0xfc32ca06dcf17},
{1679,0xda47cce6003},{1679,0x3df4bd7292f5},{1679,0x811a0d254548},{1679,0x14048c0c8e4a9},{1679,0x1a89b5616366a},{1679,0x1b4596e77f06d},{1679,0x2596856d074db},{1679,0x2d12f9cb44b98},{1679,0x317a34ed1de37},{1679,0x33451bdee5bf0},{1679,0x35eb2154a40f9},{1679,0x3a5c0dbc2a3bb},{1679,0x3cc8f2275fef3},{1679,0x47aed2f2bcc01},{1679,0x4b059ccfc7d36},{1679,0x4ece7f7b389da},{1679,0x56785fbbdd55a},{1679,0x5d51d249dca42},{1679,0x5e7896eb77298},{1679,0x74a75a2da0842},{1679,0x826cc41194020},{1679,0x8f0385717ee83},{1679,0x965e93c37ea28},{1679,0x99eea5e6d51c5},{1679,0x9f64362180366},{1679,0xa580f74fc69d5},{1679,0xa8e8625b3e8a3},{1679,0xb3c11da127cff},{1679,0xc59b27bc2decd},{1679,0xc85287204954a},{1679,0xcc6fc5976feb3},{1679,0xd0e0b1fef6175},{1679,0xd5519e667c437},{1679,0xe5b55828953c5},{1679,0xf0d4fc1699b97},{1679,0xf0ecabcdad4d6},{1679,0xf70d870fc746d},
{1680,0x811a0d254548},{1680,0x12de7f9578af2},{1680,0x14048c0c8e4a9},{1680,0x1a89b5616366a},{1680,0x1dab5e589d09c},{1680,0x2596856d074db},{1680,0x2d12f9cb44b98},{1680,0x317a34ed1de37},{1680,0x33451bdee5bf0},{1680,0x35eb2154a40f9},{1680,0x382397886725a},{1680,0x47aed2f2bcc01},{1680,0x4b059ccfc7d36},{1680,0x4c9fcb0fbe54c},{1680,0x4d2d2a37ac090},{1680,0x5d51d249dca42},{1680,0x7c7f265000d0f},{1680,0x81476bb359005},{1680,0x826cc41194020},{1680,0x89ac11f808940},{1680,0x8e52063e674a4},{1680,0x8f0385717ee83},{1680,0x9f64362180366},{1680,0xa49d92f364a6f},{1680,0xaa4f5696d66a8},{1680,0xbf1d0060dd66d},{1680,0xc17dfda692806},{1680,0xc59b27bc2decd},{1680,0xd0e0b1fef6175},{1680,0xd3192832b92d6},{1680,0xd493cbb928c9c},{1680,0xd5519e667c437},{1680,0xe5b55828953c5},{1680,0xeb863c6c1b201},{1680,0xf0d4fc1699b97},{1680,0xf70d870fc746d},{1680,0xf8f1f8657fabf},
{1681,0x5d4c20b6ff76},{1681,0x811a0d254548},{1681,0xe8efbd1e3308},{1681,0x12de7f9578af2},{1681,0x14048c0c8e4a9},{1681,0x1a89b5616366a},{1681,0x1dab5e589d09c},{1681,0x2596856d074db},{1681,0x2d12f9cb44b98},{1681,0x317a34ed1de37},{1681,0x35eb2154a40f9},{1681,0x37075c6e859a9},{1681,0x3c9483efed51c},{1681,0x3d20120178614},{1681,0x421483ccd3569},{1681,0x4b059ccfc7d36},{1681,0x54f8ceaccd7c7},{1681,0x58295bcdd47b4},{1681,0x5d51d249dca42},{1681,0x651a0c3035fa5},{1681,0x6e03d983faf38},{1681,0x6e9042dccff3f},{1681,0x7c7f265000d0f},{1681,0x81476bb359005},{1681,0x89ac11f808940},{1681,0xaa4f5696d66a8},{1681,0xb26303901bd0a},{1681,0xc17dfda692806},{1681,0xc59b27bc2decd},{1681,0xca374f63acd52},{1681,0xd0e0b1fef6175},{1681,0xd1fced18d7a26},{1681,0xd493cbb928c9c},{1681,0xd5519e667c437},{1681,0xd6598b0353bdf},{1681,0xd74bc3ae2ff08},{1681,0xe259430ea39f4},{1681,0xe5b55828953c5},{1681,0xeb863c6c1b201},{1681,0xf3ae67b3fddd6},{1681,0xf5acc597741e4},{1681,0xfdd4c467e131a},
{1682,0x5d4c20b6ff76},{1682,0x811a0d254548},{1682,0xd781033e681d},{1682,0xe8efbd1e3308},{1682,0x102b47e4af988},{1682,0x12de7f9578af2},{1682,0x14048c0c8e4a9},{1682,0x1844eef70adc7},{1682,0x1dab5e589d09c},{1682,0x2596856d074db},{1682,0x2bffabcbd231e},{1682,0x2d12f9cb44b98},{1682,0x317a34ed1de37},{1682,0x37075c6e859a9},{1682,0x3c9483efed51c},{1682,0x4110d9c01f804},{1682,0x421483ccd3569},{1682,0x4446c772af2d1},{1682,0x45269e1c92352},{1682,0x455848ce9ea40},{1682,0x47aed2f2bcc01},{1682,0x4b059ccfc7d36},{1682,0x4bc49cbdfe6af},{1682,0x53abb82852cee},{1682,0x58295bcdd47b4},{1682,0x5c51d380ddca6},{1682,0x5c6f29345ccd8},{1682,0x5d51d249dca42},{1682,0x6e03d983faf38},{1682,0x9a67e3d0d7e95},{1682,0xac1677aad4ab0},{1682,0xb402b15e0df88},{1682,0xc0debc9811ead},{1682,0xc17dfda692806},{1682,0xc59b27bc2decd},{1682,0xcd95ebe949470},{1682,0xcfc476e5148c5},{1682,0xd5519e667c437},{1682,0xd6598b0353bdf},{1682,0xdce3b2d3f8853},{1682,0xe259430ea39f4},{1682,0xe42119b693539},{1682,0xe5b55828953c5},{1682,0xeb863c6c1b201},{1682,0xf3ae67b3fddd6},
{1683,0x2ab3170c2273},{1683,0x5d4c20b6ff76},{1683,0xb8e0acac4eae},{1683,0xd781033e681d},{1683,0x12de7f9578af2},{1683,0x14048c0c8e4a9},{1683,0x1dab5e589d09c},{1683,0x2596856d074db},{1683,0x2bed0d6bb62c4},{1683,0x2bffabcbd231e},{1683,0x357f12831fff0},{1683,0x37075c6e859a9},{1683,0x38ab8b4077ec5},{1683,0x4110d9c01f804},{1683,0x4123580f054b3},{1683,0x455848ce9ea40},{1683,0x47aed2f2bcc01},{1683,0x53abb82852cee},{1683,0x5533b652c5dce},{1683,0x5c51d380ddca6},{1683,0x5c6f29345ccd8},{1683,0x6a71a452501ab},{1683,0x6e03d983faf38},{1683,0x862c7d6a80ef0},{1683,0x9573df1992f59},{1683,0xa5ebe1c0e92c5},{1683,0xb402b15e0df88},{1683,0xbd949ba11418f},{1683,0xc17dfda692806},{1683,0xc197e1aea102e},{1683,0xc50d54523dc6f},{1683,0xc53ce84c3a1f5},{1683,0xcd95ebe949470},{1683,0xcfc476e5148c5},{1683,0xdd998fb2fcb8b},{1683,0xdeffa65bdeb97},{1683,0xe42119b693539},{1683,0xeb863c6c1b201},{1683,0xf3ae67b3fddd6},{1683,0xfbc8a2661443a},
{1684,0x2ab3170c2273},{1684,0x2eab645fde45},{1684,0x4f23d43c3962},{1684,0x5d4c20b6ff76},{1684,0xa66d5dabfca3},{1684,0xb8e0acac4eae},{1684,0xf74cbf087f06},{1684,0x12de7f9578af2},{1684,0x14048c0c8e4a9},{1684,0x1dab5e589d09c},{1684,0x263dacd3c9906},{1684,0x264f724572359},{1684,0x2bed0d6bb62c4},{1684,0x2bffabcbd231e},{1684,0x357f12831fff0},{1684,0x37075c6e859a9},{1684,0x4123580f054b3},{1684,0x455848ce9ea40},{1684,0x48f71ddbbe664},{1684,0x53abb82852cee},{1684,0x5c51d380ddca6},{1684,0x5e99ecec8344d},{1684,0x740032c6de417},{1684,0x80ceb238c21d8},{1684,0x835f3fe5999c0},{1684,0x8bb9a4ebe8a63},{1684,0x9573df1992f59},{1684,0x9af42387d07b6},{1684,0x9c8358414e40b},{1684,0xa090759a5973d},{1684,0xbc00b9c1ea510},{1684,0xbd949ba11418f},{1684,0xcfc476e5148c5},{1684,0xdaac98af993bb},{1684,0xdd998fb2fcb8b},{1684,0xeef9fa5d85e5c},{1684,0xf04bdd0cf4b07},{1684,0xf3ae67b3fddd6},{1684,0xf757076312368},
{1685,0x2ab3170c2273},{1685,0x2eab645fde45},{1685,0x5d4c20b6ff76},{1685,0x9e7a46f20393},{1685,0xa66d5dabfca3},{1685,0xb8e0acac4eae},{1685,0xd47d556c41af},{1685,0x102b47e4af988},{1685,0x1dab5e589d09c},{1685,0x2207072a8197c},{1685,0x357f12831fff0},{1685,0x3f3b182f6f32a},{1685,0x4123580f054b3},{1685,0x455848ce9ea40},{1685,0x53abb82852cee},{1685,0x543619dddb7ea},{1685,0x5c51d380ddca6},{1685,0x69441496866e9},{1685,0x740032c6de417},{1685,0x7f5bf9d80cb21},{1685,0x835f3fe5999c0},{1685,0x8bb9a4ebe8a63},{1685,0x8cf60a43e3b6e},{1685,0x9155103027605},{1685,0x9573df1992f59},{1685,0x9840ebd70764c},{1685,0xa5c1024af4d60},{1685,0xadbf0de87e994},{1685,0xbc00b9c1ea510},{1685,0xc05238fbf0ca2},{1685,0xcfc476e5148c5},{1685,0xd43892e2d89b1},{1685,0xdaac98af993bb},{1685,0xdc4bbdd0334ae},{1685,0xdcd61f85bbfa9},{1685,0xeef9fa5d85e5c},{1685,0xf1c9dfe1aa7f6},{1685,0xf3ae67b3fddd6},
{1686,0x2eab645fde45},{1686,0xb8e0acac4eae},{1686,0x102b47e4af988},{1686,0x2207072a8197c},{1686,0x3a5d15594798d},{1686,0x3f338450cf05d},{1686,0x3f3b182f6f32a},{1686,0x4123580f054b3},{1686,0x4dc6514d9836f},{1686,0x5182315230100},{1686,0x52675cd5cbd9c},{1686,0x52b323880d99e},{1686,0x53abb82852cee},{1686,0x54c07b93642e5},{1686,0x603fa8f388fea},{1686,0x64844fa911e9a},{1686,0x69441496866e9},{1686,0x71f117de393f2},{1686,0x740032c6de417},{1686,0x7d44029425685},{1686,0x7f5bf9d80cb21},{1686,0x8cf60a43e3b6e},{1686,0xadbf0de87e994},{1686,0xaf6e0ff4e2523},{1686,0xbc00b9c1ea510},{1686,0xbec1c266c992c},{1686,0xc05238fbf0ca2},{1686,0xcfc476e5148c5},{1686,0xd43892e2d89b1},{1686,0xdaac98af993bb},{1686,0xdbc15c1aaa9b2},{1686,0xdcd61f85bbfa9},{1686,0xeef9fa5d85e5c},{1686,0xf3ae67b3fddd6},
{1687,0x2eab645fde45},{1687,0x88b7bf35e38e},{1687,0xb8e0acac4eae},{1687,0x1b0a228549d9a},{1687,0x2207072a8197c},{1687,0x370852f21e844},{1687,0x3a5d15594798d},{1687,0x3be2ecf4d49b4},{1687,0x5182315230100},{1687,0x5351feeca9ec7},{1687,0x56ea026986ed3},{1687,0x5999db8bd6a3a},{1687,0x69441496866e9},{1687,0x740032c6de417},{1687,0x7f5bf9d80cb21},{1687,0x87340b4bdb156},{1687,0xa9bf25034be7b},{1687,0xbc00b9c1ea510},{1687,0xbec1c266c992c},{1687,0xc05238fbf0ca2},{1687,0xcfc476e5148c5},{1687,0xd43892e2d89b1},{1687,0xda005057f753c},{1687,0xdaac98af993bb},{1687,0xe57c3ade46f61},{1687,0xeef9fa5d85e5c},{1687,0xf0cd6837f98ca},
{1688,0xb8e0acac4eae},{1688,0xfa0e62f26e8c},{1688,0x1c46eb7771399},{1688,0x1d9a1d2f9a195},{1688,0x212dfc62fa920},{1688,0x2207072a8197c},{1688,0x370852f21e844},{1688,0x3a5d15594798d},{1688,0x4333655f90851},{1688,0x5351feeca9ec7},{1688,0x56ea026986ed3},{1688,0x5999db8bd6a3a},{1688,0x6538ce5c26782},{1688,0x69441496866e9},{1688,0x7f5bf9d80cb21},{1688,0x873e3758bc6b3},{1688,0x8909e0a9b9bfa},{1688,0x930126a7d2350},{1688,0x98cb4d8c90147},{1688,0x9bb54e145f9d1},{1688,0x9f186f6f3e764},{1688,0xa7ff42c79de30},{1688,0xbad19ef8e3508},{1688,0xbec1c266c992c},{1688,0xc05238fbf0ca2},{1688,0xc37fb2362c4c6},{1688,0xcd2944a9f40ef},{1688,0xd43892e2d89b1},{1688,0xd66710fcf1eed},{1688,0xd7bb8ede25c01},{1688,0xda005057f753c},{1688,0xe57c3ade46f61},{1688,0xeef9fa5d85e5c},{1688,0xf0cd6837f98ca},{1688,0xf479a423d965f},{1688,0xf7296866084c8},
{1689,0xc9768b14f1fc},{1689,0xfa0e62f26e8c},{1689,0x102b47e4af988},{1689,0x1d9a1d2f9a195},{1689,0x20dbd78022495},{1689,0x212dfc62fa920},{1689,0x2207072a8197c},{1689,0x2d05529a4bbce},{1689,0x2e9cd1ade512d},{1689,0x3230b0e1458b9},{1689,0x3a5d15594798d},{1689,0x4333655f90851},{1689,0x4e718d7d7625a},{1689,0x543619dddb7ea},{1689,0x56ea026986ed3},{1689,0x6538ce5c26782},{1689,0x7c98fd2fdbe9a},{1689,0x84e1f3286e42f},{1689,0x873e3758bc6b3},{1689,0x98cb4d8c90147},{1689,0x99cd15f1e6fbb},{1689,0x9e331ea3e6f1a},{1689,0xa20df0dcd3af0},{1689,0xb9bbf31e14a81},{1689,0xc05238fbf0ca2},{1689,0xcd2944a9f40ef},{1689,0xd7bb8ede25c01},{1689,0xda005057f753c},{1689,0xdda123919ce58},{1689,0xe57c3ade46f61},{1689,0xeeb9c3cb92ac4},{1689,0xf5aa543c31387},
{1690,0xc9768b14f1fc},{1690,0xfa0e62f26e8c},{1690,0x153293ebcff90},{1690,0x1966a125c64b9},{1690,0x1d9a1d2f9a195},{1690,0x212dfc62fa920},{1690,0x2d05529a4bbce},{1690,0x2f98eb26d796d},{1690,0x33ccf860cde96},{1690,0x36a8011731ae0},{1690,0x4333655f90851},{1690,0x46b369f652468},{1690,0x4da636049e9a3},{1690,0x56ea026986ed3},{1690,0x59a16f6a76d07},{1690,0x6538ce5c26782},{1690,0x771303df7a58c},{1690,0x783fbf2d24ea5},{1690,0x832c092f349fb},{1690,0x84e1f3286e42f},{1690,0x873e3758bc6b3},{1690,0x9b6477491c2c7},{1690,0xa943a055525e4},{1690,0xac672bc76725f},{1690,0xc8fe49170cc60},{1690,0xda005057f753c},{1690,0xdda123919ce58},{1690,0xe57c3ade46f61},{1690,0xeeb9c3cb92ac4},{1690,0xfb9d3e411dcf5},
{1691,0x8321901e2799},{1691,0xfa0e62f26e8c},{1691,0x1966a125c64b9},{1691,0x1d9a1d2f9a195},{1691,0x212dfc62fa920},{1691,0x2d70b4a07a44d},{1691,0x33ccf860cde96},{1691,0x398a74a59ec34},{1691,0x4333655f90851},{1691,0x49ff4261df34a},{1691,0x5c7f4a3c5b22e},{1691,0x6538ce5c26782},{1691,0x783fbf2d24ea5},{1691,0x873e3758bc6b3},{1691,0x92b0e271622d2},{1691,0x982a238cd53fb},{1691,0xa943a055525e4},{1691,0xac672bc76725f},{1691,0xacb387876b58d},{1691,0xb4542206bdcae},{1691,0xbe5cc9806dade},{1691,0xc719dec272f6a},{1691,0xcdfef6890549b},{1691,0xda005057f753c},{1691,0xe57c3ade46f61},{1691,0xeb4c58d4282f8},{1691,0xeeb9c3cb92ac4},
{1692,0x86b60aa649c2},{1692,0xfa0e62f26e8c},{1692,0x102b47e4af988},{1692,0x1ab167e092556},{1692,0x1f699597d1885},{1692,0x1fa1c557865aa},{1692,0x212dfc62fa920},{1692,0x3230b0e1458b9},{1692,0x3667ca853e748},{1692,0x398a74a59ec34},{1692,0x3a79e13fc52fd},{1692,0x4333655f90851},{1692,0x49ff4261df34a},{1692,0x4b7c95be10295},{1692,0x4bd980b81b809},{1692,0x4d65ff72ab60b},{1692,0x543619dddb7ea},{1692,0x592953e47443e},{1692,0x5c7243423ca38},{1692,0x5c7f4a3c5b22e},{1692,0x6538ce5c26782},{1692,0x6d81febaa61c6},{1692,0x763b82da7171b},{1692,0x7bb2ad83f540f},{1692,0x7e84b338f115f},{1692,0x873e3758bc6b3},{1692,0x92b0e271622d2},{1692,0xa20df0dcd3af0},{1692,0xa2cba3237457d},{1692,0xa943a055525e4},{1692,0xa9af175ecf195},{1692,0xac817d48bf603},{1692,0xb4542206bdcae},{1692,0xbe5cc9806dade},{1692,0xc0b5531e7a6cb},{1692,0xcdfef6890549b},{1692,0xf614fd6868190},
{1693,0x548b68a044d6},{1693,0xfd07ed297f80},{1693,0x1e7bdca2f73a6},{1693,0x1f699597d1885},{1693,0x360994b8b1c62},{1693,0x398a74a59ec34},{1693,0x49ff4261df34a},{1693,0x4b7c95be10295},{1693,0x4bd980b81b809},{1693,0x592953e47443e},{1693,0x5c7243423ca38},{1693,0x5c7f4a3c5b22e},{1693,0x630d145698d23},{1693,0x6d81febaa61c6},{1693,0x6dcc32c139392},{1693,0x7d736b91a0700},{1693,0x82daf1cbc780e},{1693,0x842e05f126714},{1693,0x92609e3af2254},{1693,0x92b0e271622d2},{1693,0xa2cba3237457d},{1693,0xa943a055525e4},{1693,0xb0e794c161ab6},{1693,0xb4542206bdcae},{1693,0xbe5cc9806dade},{1693,0xc0b5531e7a6cb},{1693,0xcfac4ededd3ba},{1693,0xdd791a64f1615},{1693,0xe65504b7cb4ac},{1693,0xf614fd6868190},{1693,0xf9bc3adc3dbac},
{1694,0x125210238b5a},{1694,0x548b68a044d6},{1694,0x55f77ad445a2},{1694,0xfd07ed297f80},{1694,0x14302ff71578d},{1694,0x1e7bdca2f73a6},{1694,0x1f699597d1885},{1694,0x2b24e3375c045},{1694,0x2ce7e09a3b965},{1694,0x360324c630663},{1694,0x3903698f7ebc2},{1694,0x398a74a59ec34},{1694,0x49ff4261df34a},{1694,0x4bd980b81b809},{1694,0x53ab53b36bfe3},{1694,0x592953e47443e},{1694,0x5c7f4a3c5b22e},{1694,0x5dd6a327e7ff7},{1694,0x630d145698d23},{1694,0x6716a42982d2f},{1694,0x6fa69a8702123},{1694,0x7d736b91a0700},{1694,0x82a9dcc05142c},{1694,0x82daf1cbc780e},{1694,0x842e05f126714},{1694,0x92609e3af2254},{1694,0x92b0e271622d2},{1694,0x960f49108cef9},{1694,0xa943a055525e4},{1694,0xb39f1ccb71eb9},{1694,0xb4542206bdcae},{1694,0xbc77f79a17ccf},{1694,0xc0225ec432dc9},{1694,0xcfac4ededd3ba},{1694,0xdd791a64f1615},{1694,0xe2e0a623a2aa5},{1694,0xf7fb89bcf6d1e},{1694,0xfa3ce1ab6855f},
{1695,0x532934495b9c},{1695,0x548b68a044d6},{1695,0xfd07ed297f80},{1695,0x14302ff71578d},{1695,0x1f699597d1885},{1695,0x2a05ccdcfefd1},{1695,0x2ce7e09a3b965},{1695,0x3903698f7ebc2},{1695,0x398a74a59ec34},{1695,0x49ff4261df34a},{1695,0x4bd980b81b809},{1695,0x543619dddb7ea},{1695,0x592953e47443e},{1695,0x5dd6a327e7ff7},{1695,0x79efc7486592c},{1695,0x7d736b91a0700},{1695,0x8096ff5090ff0},{1695,0x82a9dcc05142c},{1695,0x87ed11cf06741},{1695,0x9199b3cedbf88},{1695,0x92609e3af2254},{1695,0x92b0e271622d2},{1695,0x960f49108cef9},{1695,0xa14567b8ca0f9},{1695,0xa29c684d26f21},{1695,0xa943a055525e4},{1695,0xb39f1ccb71eb9},{1695,0xb4542206bdcae},{1695,0xbc77f79a17ccf},{1695,0xc0225ec432dc9},{1695,0xc4a1d149bce52},{1695,0xcc504ff123c96},{1695,0xcecdbc94921ef},{1695,0xcefd4dbfdc727},{1695,0xd5a485c807dea},{1695,0xdd791a64f1615},{1695,0xe33eacbdfb69c},{1695,0xe6a73a4652d83},{1695,0xfa3ce1ab6855f},{1695,0xfe5126ccc93df},
{1696,0x2ddfe110f660},{1696,0x532934495b9c},{1696,0x548b68a044d6},{1696,0xfd07ed297f80},{1696,0x14302ff71578d},{1696,0x1f699597d1885},{1696,0x2ce7e09a3b965},{1696,0x2e9687321d16a},{1696,0x3c8c2d576518e},{1696,0x49ff4261df34a},{1696,0x4ac7704138c99},{1696,0x7d736b91a0700},{1696,0x8745d90847b90},{1696,0x87ed11cf06741},{1696,0x9199b3cedbf88},{1696,0x9420455315157},{1696,0xa14567b8ca0f9},{1696,0xa29c684d26f21},{1696,0xa36a48192f892},{1696,0xa89628a046fdc},{1696,0xa943a055525e4},{1696,0xb39f1ccb71eb9},{1696,0xc0225ec432dc9},{1696,0xc4a1d149bce52},{1696,0xc7780dac627dc},{1696,0xc93f3f7187877},{1696,0xcaa1a95942491},{1696,0xcc504ff123c96},{1696,0xd6e6893216e44},{1696,0xdd791a64f1615},{1696,0xe6a73a4652d83},{1696,0xe7b90b20e5e76},{1696,0xfa3ce1ab6855f},
{1697,0x2ddfe110f660},{1697,0x548b68a044d6},{1697,0xfd07ed297f80},{1697,0x14302ff71578d},{1697,0x19dc32fe7c523},{1697,0x1f699597d1885},{1697,0x3c8c2d576518e},{1697,0x4276a87902b25},{1697,0x4861239aa04bc},{1697,0x4ac7704138c99},{1697,0x5013f7337f110},{1697,0x53795cf74dabd},{1697,0x544e6daee2a17},{1697,0x5604f961dec35},{1697,0x6ba4463f7d3ae},{1697,0x730e55678567e},{1697,0x7d736b91a0700},{1697,0x9199b3cedbf88},{1697,0xa28228f6508fc},{1697,0xa36a48192f892},{1697,0xa4e1ddc1621cb},{1697,0xa89628a046fdc},{1697,0xa943a055525e4},{1697,0xb019ab8b5a3a7},{1697,0xb39f1ccb71eb9},{1697,0xb8ccafdc033b6},{1697,0xc4a1d149bce52},{1697,0xc7780dac627dc},{1697,0xcc504ff123c96},{1697,0xdd791a64f1615},{1697,0xe6a73a4652d83},{1697,0xf3bec220e5761},{1697,0xfa3ce1ab6855f},
{1698,0x2ddfe110f660},{1698,0x548b68a044d6},{1698,0xafd89a99fd1d},{1698,0xfd07ed297f80},{1698,0x1263c88ef0927},{1698,0x14302ff71578d},{1698,0x19dc32fe7c523},{1698,0x1f699597d1885},{1698,0x2f7b3416795e2},{1698,0x3af629bc4a66f},{1698,0x3dba62890a997},{1698,0x4276a87902b25},{1698,0x4ac7704138c99},{1698,0x5013f7337f110},{1698,0x544e6daee2a17},{1698,0x56ef6f9525a59},{1698,0x644e97574d99b},{1698,0x6ba4463f7d3ae},{1698,0x7921a7474be4c},{1698,0x838c3ce15fcbb},{1698,0x8a0c8a54f2541},{1698,0x8cd33ba19cef2},{1698,0x9199b3cedbf88},{1698,0x946cab66afca1},{1698,0xa4e1ddc1621cb},{1698,0xa89628a046fdc},{1698,0xa943a055525e4},{1698,0xb39f1ccb71eb9},{1698,0xb88e9882215b5},{1698,0xb8ccafdc033b6},{1698,0xc224b6002d550},{1698,0xcc504ff123c96},{1698,0xe0bcbf24b53ec},{1698,0xe6a73a4652d83},{1698,0xf3bec220e5761},{1698,0xf4b4b133cf050},{1698,0xf92c906c177da},{1698,0xfa3ce1ab6855f},
{1699,0x4de6366ae27},{1699,0x3bafd9c63263},{1699,0xafd89a99fd1d},{1699,0xfd07ed297f80},{1699,0x19dc32fe7c523},{1699,0x222e584543448},{1699,0x27bc58662c8f2},{1699,0x3af629bc4a66f},{1699,0x3c8c2d576518e},{1699,0x3dba62890a997},{1699,0x4276a87902b25},{1699,0x4f2aca95ee3bd},{1699,0x51f45ea9b7532},{1699,0x544e6daee2a17},{1699,0x644e97574d99b},{1699,0x716db491a0e15},{1699,0x8a0c8a54f2541},{1699,0x8baf38ad3e5f1},{1699,0x8cd33ba19cef2},{1699,0x948ef15faac54},{1699,0x9926dc143c543},{1699,0x9a9985b3d95e7},{1699,0xa3333729809c6},{1699,0xa4e1ddc1621cb},{1699,0xa89628a046fdc},{1699,0xc224b6002d550},{1699,0xcc504ff123c96},{1699,0xdad2440317a55},{1699,0xe3b1fcb5840b7},{1699,0xf561f162d51f3},{1699,0xf92c906c177da},{1699,0xfa3ce1ab6855f},
{1700,0xafd89a99fd1d},{1700,0xd0a07dc51725},{1700,0xfd07ed297f80},{1700,0x11881f187c810},{1700,0x1dc787a6f4b4a},{1700,0x222e584543448},{1700,0x27bc58662c8f2},{1700,0x3c8c2d576518e},{1700,0x4276a87902b25},{1700,0x449a8f77f01de},{1700,0x4b56612b6f187},{1700,0x4f2dad5d0cb81},{1700,0x544e6daee2a17},{1700,0x6b82ccec56bbc},{1700,0x6f6e40b2160cd},{1700,0x8a0c8a54f2541},{1700,0x8baf38ad3e5f1},{1700,0x9a796c81485eb},{1700,0xa3333729809c6},{1700,0xacd8445d115c7},{1700,0xc114f9bd37650},{1700,0xc224b6002d550},{1700,0xc70c7b027820b},{1700,0xcc504ff123c96},{1700,0xe3b1fcb5840b7},{1700,0xe99c77d721a4e},{1700,0xece49354f4ee9},{1700,0xf561f162d51f3},{1700,0xf92c906c177da},{1700,0xfa3ce1ab6855f},
{1701,0x65f10946c0a7},{1701,0xafd89a99fd1d},{1701,0xb247bc082eb3},{1701,0xfd07ed297f80},{1701,0x11881f187c810},{1701,0x1c5fc1967d759},{1701,0x1dc787a6f4b4a},{1701,0x27bc58662c8f2},{1701,0x30ac3ac59a09e},{1701,0x4276a87902b25},{1701,0x4b56612b6f187},{1701,0x544e6daee2a17},{1701,0x5981dafe0c4a3},{1701,0x5d0f23dc61bf6},{1701,0x6b82ccec56bbc},{1701,0x6f6e40b2160cd},{1701,0x8baf38ad3e5f1},{1701,0x8dad7458ad611},{1701,0x9ee38ff203cdc},{1701,0xa3333729809c6},{1701,0xa4b547843a870},{1701,0xa79a64d0ed63a},{1701,0xaf2923f34ae7f},{1701,0xbaa5d84230020},{1701,0xc0660d19dd13e},{1701,0xc224b6002d550},{1701,0xcc08102f0da5b},{1701,0xcc504ff123c96},{1701,0xd11d1adff33dd},{1701,0xece49354f4ee9},{1701,0xf5754dd3e197f},{1701,0xf92c906c177da},{1701,0xfa3ce1ab6855f},
{1702,0x4964375e1372},{1702,0x8dea0b5578bd},{1702,0xb247bc082eb3},{1702,0xfd07ed297f80},{1702,0x1c5fc1967d759},{1702,0x27bc58662c8f2},{1702,0x2b29f56a87752},{1702,0x2c04b5a5a2e3d},{1702,0x2c75f776f1473},{1702,0x323135e9bd0ab},{1702,0x374ba17a6f203},{1702,0x3edddb9a28a45},{1702,0x433ca76bbdec2},{1702,0x4b56612b6f187},{1702,0x544e6daee2a17},{1702,0x6b82ccec56bbc},{1702,0x7c9f025b3d9c2},{1702,0x82b0aeb5f5a09},{1702,0x88936dda2f7b1},{1702,0x8baf38ad3e5f1},{1702,0x9ee38ff203cdc},{1702,0xa3333729809c6},{1702,0xabdba46e26026},{1702,0xbaa5d84230020},{1702,0xbefaaf9e824d2},{1702,0xbfcd89c24cbe0},{1702,0xc0660d19dd13e},{1702,0xcc08102f0da5b},{1702,0xce06dba41feb4},{1702,0xd11d1adff33dd},{1702,0xe0752bf5c3a83},{1702,0xece49354f4ee9},{1702,0xf41d2d642c3c2},{1702,0xf92c906c177da},{1702,0xf9b2adb795769},{1702,0xfa3ce1ab6855f},{1702,0xfe52048590672},
{1703,0x8dea0b5578bd},{1703,0xcbdc63089476},{1703,0xe3b0e8b721e1},{1703,0xfd07ed297f80},{1703,0x1280575f7f9eb},{1703,0x17760f3ae645f},{1703,0x21f2ea1408e8b},{1703,0x2b29f56a87752},{1703,0x2c04b5a5a2e3d},{1703,0x323135e9bd0ab},{1703,0x374ba17a6f203},{1703,0x3edddb9a28a45},{1703,0x433ca76bbdec2},{1703,0x4b56612b6f187},{1703,0x4bfc6231a4018},{1703,0x544e6daee2a17},{1703,0x5b6c970be2ea2},{1703,0x676597388d229},{1703,0x6b82ccec56bbc},{1703,0x7ae19a05263d3},{1703,0x7b9902ccca8d7},{1703,0x88936dda2f7b1},{1703,0x88f25a8590786},{1703,0x8baf38ad3e5f1},{1703,0x98c44192ebbb1},{1703,0x9a61ccd25324d},{1703,0xb82b73ec83ea9},{1703,0xcc08102f0da5b},{1703,0xce06dba41feb4},{1703,0xda2c42fce2bc4},{1703,0xe0752bf5c3a83},{1703,0xe33f8621642e8},{1703,0xe36fbcab95559},{1703,0xece49354f4ee9},{1703,0xf92c906c177da},{1703,0xfa3ce1ab6855f},
{1704,0x8dea0b5578bd},{1704,0xcbdc63089476},{1704,0xe3b0e8b721e1},{1704,0xfd07ed297f80},{1704,0x21f2ea1408e8b},{1704,0x2b29f56a87752},{1704,0x3144be1d2a5fc},{1704,0x342e11e410bb8},{1704,0x374ba17a6f203},{1704,0x41e01d5d3ee48},{1704,0x544e6daee2a17},{1704,0x55432bf71c31e},{1704,0x5b6c970be2ea2},{1704,0x6645a7f96b02b},{1704,0x6807f186ad6da},{1704,0x6b82ccec56bbc},{1704,0x77581d409ae32},{1704,0x7ae19a05263d3},{1704,0x7b9902ccca8d7},{1704,0x865e9c8573fa5},{1704,0x98c44192ebbb1},{1704,0x9a61ccd25324d},{1704,0x9bdf152d3bfb8},{1704,0x9c41590c40303},{1704,0xa2d787f49cbc0},{1704,0xbe87c3f4de5a4},{1704,0xc980919f2a088},{1704,0xcc08102f0da5b},{1704,0xce06dba41feb4},{1704,0xd1c4c40cd51f4},{1704,0xd74b1aa2724f9},{1704,0xda2c42fce2bc4},{1704,0xe33f8621642e8},{1704,0xe578aa3c764e7},{1704,0xece49354f4ee9},{1704,0xef33f1a0560d7},{1704,0xf3d67172355ac},{1704,0xf92c906c177da},{1704,0xfa3ce1ab6855f},{1704,0xfb285d1f47ec6},
{1705,0x3c2290b4516c},{1705,0x8dea0b5578bd},{1705,0xcbdc63089476},{1705,0xe3b8ec8a85f0},{1705,0x14a7a7295e014},{1705,0x21f2ea1408e8b},{1705,0x2a3e5fbc717ed},{1705,0x2b29f56a87752},{1705,0x3144be1d2a5fc},{1705,0x374ba17a6f203},{1705,0x41e01d5d3ee48},{1705,0x544e6daee2a17},{1705,0x6645a7f96b02b},{1705,0x6b82ccec56bbc},{1705,0x77581d409ae32},{1705,0x7ae19a05263d3},{1705,0x7b9902ccca8d7},{1705,0x7ebd83642c4d6},{1705,0x839c2a29d5370},{1705,0x922b42eb4f796},{1705,0x98c44192ebbb1},{1705,0x9c41590c40303},{1705,0xa3bd0f3d37695},{1705,0xb3e316ad0d95e},{1705,0xbe87c3f4de5a4},{1705,0xbf6243a48e91b},{1705,0xc04dbf186e282},{1705,0xc25df2af4f765},{1705,0xc980919f2a088},{1705,0xcc08102f0da5b},{1705,0xd1c4c40cd51f4},{1705,0xd274288fc347f},{1705,0xe33f8621642e8},{1705,0xe8f676d0ecbbe},{1705,0xece49354f4ee9},{1705,0xef33f1a0560d7},{1705,0xf92c906c177da},{1705,0xfa3ce1ab6855f},{1705,0xfb285d1f47ec6},{1705,0xfe52048590672},
{1706,0x94d84d8c3be5},{1706,0xcbdc63089476},{1706,0x14a7a7295e014},{1706,0x2a68c1abaefa3},{1706,0x2b29f56a87752},{1706,0x374ba17a6f203},{1706,0x41e01d5d3ee48},{1706,0x44ea48cab9763},{1706,0x47d610af1bdc5},{1706,0x5216563216112},{1706,0x544e6daee2a17},{1706,0x5eaa9c2aeb774},{1706,0x68f117292ce70},{1706,0x6ac3768c0d1b0},{1706,0x6b82ccec56bbc},{1706,0x6d84585bd344c},{1706,0x7ae19a05263d3},{1706,0x7b9902ccca8d7},{1706,0x922b42eb4f796},{1706,0x9c41590c40303},{1706,0x9efb7abe0d01e},{1706,0xb247bccedba4a},{1706,0xbe87c3f4de5a4},{1706,0xbf6243a48e91b},{1706,0xc04dbf186e282},{1706,0xc25df2af4f765},{1706,0xc8c926e790eea},{1706,0xc980919f2a088},{1706,0xd1c4c40cd51f4},{1706,0xd96890885bd3f},{1706,0xe33f8621642e8},{1706,0xf5b338a1e5e1c},{1706,0xf5d6a08105bc6},{1706,0xfa3ce1ab6855f},{1706,0xfb285d1f47ec6},
{1707,0x86b0f3910f1},{1707,0x6c8a4c4e5eca},{1707,0x94d84d8c3be5},{1707,0x1169a20a55741},{1707,0x1f0e228b213a0},{1707,0x2658e321ff3b7},{1707,0x29d254569e2e5},{1707,0x2b29f56a87752},{1707,0x374ba17a6f203},{1707,0x380a1f1aa075b},{1707,0x39882d9b7867c},{1707,0x41e01d5d3ee48},{1707,0x44ea48cab9763},{1707,0x47d610af1bdc5},{1707,0x4cdc03e856700},{1707,0x5216563216112},{1707,0x544e6daee2a17},{1707,0x5eaa9c2aeb774},{1707,0x6ac3768c0d1b0},{1707,0x6b82ccec56bbc},{1707,0x6fe5b37a0eb1b},{1707,0x7289aa435fc07},{1707,0x74e582a81ec5f},{1707,0x786aef8b1d785},{1707,0x7ae19a05263d3},{1707,0x7b9902ccca8d7},{1707,0x81c53342160a2},{1707,0x884f0d137a35b},{1707,0x9c41590c40303},{1707,0xa6184ea5488ac},{1707,0xb0acb6b6ae3c1},{1707,0xb247bccedba4a},{1707,0xbad4f4ca4e021},{1707,0xbe87c3f4de5a4},{1707,0xc8c926e790eea},{1707,0xcc3ec509bcf41},{1707,0xe33f8621642e8},{1707,0xf1108b35d82cf},{1707,0xf4c07ad6427ed},{1707,0xf5b338a1e5e1c},{1707,0xf5d6a08105bc6},{1707,0xfa3ce1ab6855f},{1707,0xfb285d1f47ec6},
{1708,0x6c8a4c4e5eca},{1708,0x2332cf0db3c0f},{1708,0x29d254569e2e5},{1708,0x2b29f56a87752},{1708,0x380a1f1aa075b},{1708,0x44ea48cab9763},{1708,0x4cdc03e856700},{1708,0x544e6daee2a17},{1708,0x59d190f3b5819},{1708,0x6ac3768c0d1b0},{1708,0x6b82ccec56bbc},{1708,0x6ecaf33fffca2},{1708,0x6fe5b37a0eb1b},{1708,0x70724bcdcfdf1},{1708,0x74e582a81ec5f},{1708,0x81c53342160a2},{1708,0x8e17c1d1827bf},{1708,0x937bfb5f8820c},{1708,0x99c64eb9cf04d},{1708,0x9c41590c40303},{1708,0xab8b26eb47192},{1708,0xb0ab9c22d820a},{1708,0xb0acb6b6ae3c1},{1708,0xb5f9129d7f351},{1708,0xb685aaf140627},{1708,0xbe87c3f4de5a4},{1708,0xd341ab9bd9fc4},{1708,0xd40f2ea7f0b08},{1708,0xd98f5a82f8a42},{1708,0xf4c07ad6427ed},{1708,0xf5b338a1e5e1c},{1708,0xf5d6a08105bc6},{1708,0xfa3ce1ab6855f},
{1709,0x6c8a4c4e5eca},{1709,0x156288580146f},{1709,0x230ac6942c5ad},{1709,0x2b29f56a87752},{1709,0x2d2b34074dbd8},{1709,0x380a1f1aa075b},{1709,0x3bc09e5e4b313},{1709,0x3ef342d37a407},{1709,0x44ea48cab9763},{1709,0x48edd8072afba},{1709,0x4fa72229e6e01},{1709,0x544e6daee2a17},{1709,0x577833a4b1e3d},{1709,0x59d190f3b5819},{1709,0x6ac3768c0d1b0},{1709,0x7cf795f597dc6},{1709,0x81c53342160a2},{1709,0x8784b2e73ab8e},{1709,0x8eb0138858d09},{1709,0x937bfb5f8820c},{1709,0x96a95b9a6f123},{1709,0xab8b26eb47192},{1709,0xb0ab9c22d820a},{1709,0xb5f9129d7f351},{1709,0xb685aaf140627},{1709,0xbe87c3f4de5a4},{1709,0xc72f04f7d7b00},{1709,0xd40f2ea7f0b08},{1709,0xd65f327cde56c},{1709,0xde6ce43d3760b},{1709,0xe0ef585809b11},{1709,0xe4f2e7947b367},{1709,0xeb85176d07205},{1709,0xeefa8f45668dc},{1709,0xf4c07ad6427ed},{1709,0xf5d6a08105bc6},{1709,0xfa3ce1ab6855f},
{1710,0x2de3469e9973},{1710,0x6c8a4c4e5eca},{1710,0x230ac6942c5ad},{1710,0x2d2b34074dbd8},{1710,0x380a1f1aa075b},{1710,0x3b13ad8c182c3},{1710,0x3bc09e5e4b313},{1710,0x41e41232710d4},{1710,0x4807860696e95},{1710,0x48edd8072afba},{1710,0x4fa72229e6e01},{1710,0x515fb47d703e9},{1710,0x577833a4b1e3d},{1710,0x81c53342160a2},{1710,0x8784b2e73ab8e},{1710,0x8be5a0b5376cd},{1710,0x8c7cbbb955136},{1710,0xa8da8aa80d1ce},{1710,0xab8b26eb47192},{1710,0xac1232df7a307},{1710,0xacc31365729ec},{1710,0xb5f9129d7f351},{1710,0xbe87c3f4de5a4},{1710,0xc2a5b3136b129},{1710,0xd3f5b8425d459},{1710,0xd40f2ea7f0b08},{1710,0xed64c40ac0797},{1710,0xeefa8f45668dc},{1710,0xf5d6a08105bc6},{1710,0xfe487cf74aff6},
{1711,0x6c8a4c4e5eca},{1711,0x230ac6942c5ad},{1711,0x2d2b34074dbd8},{1711,0x380a1f1aa075b},{1711,0x3bc09e5e4b313},{1711,0x41e41232710d4},{1711,0x48edd8072afba},{1711,0x4db2ddcb341f2},{1711,0x4f9afd8b1c52e},{1711,0x515fb47d703e9},{1711,0x577833a4b1e3d},{1711,0x58d1f0b220bb9},{1711,0x62436d69fac48},{1711,0x65dc3ea90a11c},{1711,0x681bbe9127a48},{1711,0x7f9c92093c12d},{1711,0x81c53342160a2},{1711,0x995ce5696e13e},{1711,0xa39b2a7f3afd8},{1711,0xa8da8aa80d1ce},{1711,0xb5f9129d7f351},{1711,0xbe87c3f4de5a4},{1711,0xc82da8cf0ccea},{1711,0xcd42db1856d37},{1711,0xd40f2ea7f0b08},{1711,0xd715654039197},{1711,0xda623f009a683},{1711,0xeb375860c5105},{1711,0xeefa8f45668dc},{1711,0xf5d6a08105bc6},{1711,0xf8570e77ffb5f},{1711,0xfe487cf74aff6},
{1712,0x6c8a4c4e5eca},{1712,0x18fd3af673863},{1712,0x2167c7a688da4},{1712,0x230ac6942c5ad},{1712,0x2b040ea6429c7},{1712,0x34fba8bcde6e7},{1712,0x380a1f1aa075b},{1712,0x3bc09e5e4b313},{1712,0x41e41232710d4},{1712,0x498822d319d2a},{1712,0x4c1beb48d810b},{1712,0x4db2ddcb341f2},{1712,0x4f9afd8b1c52e},{1712,0x577833a4b1e3d},{1712,0x58d1f0b220bb9},{1712,0x5a71e183087d8},{1712,0x5cda11174db68},{1712,0x62436d69fac48},{1712,0x681bbe9127a48},{1712,0x7f9c92093c12d},{1712,0x84b87971bcfe9},{1712,0x8c7cbbb955136},{1712,0x8db0ea8616086},{1712,0x8eb0138858d09},{1712,0x95f9282e3c5f5},{1712,0x995ce5696e13e},{1712,0x9b294e08f5ba8},{1712,0xae3600e69d0bb},{1712,0xb5f9129d7f351},{1712,0xc82da8cf0ccea},{1712,0xccdd8c29d2160},{1712,0xeefa8f45668dc},{1712,0xf25c186a6f04c},{1712,0xfe487cf74aff6},
{1713,0x69f2e4d278c5},{1713,0xc2b9530fcde4},{1713,0x1b972ecb22fab},{1713,0x1c7d631ae6ce0},{1713,0x201f075cc7a04},{1713,0x230ac6942c5ad},{1713,0x295d8ccaffce8},{1713,0x3bc09e5e4b313},{1713,0x41e41232710d4},{1713,0x498822d319d2a},{1713,0x4c1beb48d810b},{1713,0x4db2ddcb341f2},{1713,0x4f9afd8b1c52e},{1713,0x577833a4b1e3d},{1713,0x5cda11174db68},{1713,0x677b26c9f95da},{1713,0x7eb65db9783f8},{1713,0x7f9c92093c12d},{1713,0x84b87971bcfe9},{1713,0x8c7cbbb955136},{1713,0x95f9282e3c5f5},{1713,0x97d467cc83162},{1713,0x9b294e08f5ba8},{1713,0x9f4ac66841705},{1713,0xa61c573d7a315},{1713,0xb29fe0818ae19},{1713,0xb45974bac2e7c},{1713,0xb4c21a124b81d},{1713,0xb5f9129d7f351},{1713,0xc82da8cf0ccea},{1713,0xccdd8c29d2160},{1713,0xe14d3e56a01ce},{1713,0xe2bbc0f79157b},{1713,0xeefa8f45668dc},{1713,0xef9beaa7aa583},{1713,0xfe487cf74aff6},
{1714,0xa9f59dcc831e},{1714,0xd5db6a3643d3},{1714,0xeccd4c26dfc1},{1714,0x230ac6942c5ad},{1714,0x295d8ccaffce8},{1714,0x2a89dac9095f8},{1714,0x36e8f293fddfb},{1714,0x3bc09e5e4b313},{1714,0x41e41232710d4},{1714,0x498822d319d2a},{1714,0x4db2ddcb341f2},{1714,0x4f9afd8b1c52e},{1714,0x547d0f6a1df0b},{1714,0x554690986bc41},{1714,0x577833a4b1e3d},{1714,0x5cda11174db68},{1714,0x64938ee8d3461},{1714,0x850c0a131e62b},{1714,0x8c7cbbb955136},{1714,0x8cefd5e136fd0},{1714,0x9198a84488951},{1714,0x95f9282e3c5f5},{1714,0x97d467cc83162},{1714,0x9b294e08f5ba8},{1714,0xa5784c334498e},{1714,0xb29fe0818ae19},{1714,0xb5f9129d7f351},{1714,0xb79c3e5873358},{1714,0xc82da8cf0ccea},{1714,0xd30ab7df80341},{1714,0xd9711731e977b},{1714,0xe033b6eff7607},{1714,0xe14d3e56a01ce},{1714,0xef9beaa7aa583},
{1715,0xd5db6a3643d3},{1715,0xeccd4c26dfc1},{1715,0x2546b9905c96a},{1715,0x295d8ccaffce8},{1715,0x2a89dac9095f8},{1715,0x43cf2abe7fd07},{1715,0x4f9afd8b1c52e},{1715,0x54315cd3a98b4},{1715,0x577833a4b1e3d},{1715,0x5cda11174db68},{1715,0x64938ee8d3461},{1715,0x68b467fa28665},{1715,0x707ce591b9820},{1715,0x75c5124fd3439},{1715,0x8c7cbbb955136},{1715,0x9198a84488951},{1715,0x95f9282e3c5f5},{1715,0x97d467cc83162},{1715,0xa2583ff930df8},{1715,0xb001084dc7f26},{1715,0xb5f9129d7f351},{1715,0xb79c3e5873358},{1715,0xbba4a5aacea64},{1715,0xc969cbb8c1210},{1715,0xd39c14800ec6e},{1715,0xe033b6eff7607},{1715,0xe14d3e56a01ce},{1715,0xe65253a008ed9},{1715,0xef9beaa7aa583},{1715,0xf25c186a6f04c},{1715,0xf6fda2272d9fe},{1715,0xfed19906b1cb4},
{1716,0xc96417cff7f8},{1716,0xd5db6a3643d3},{1716,0x1b900e23046f8},{1716,0x2546b9905c96a},{1716,0x295d8ccaffce8},{1716,0x37798f428562f},{1716,0x4f9afd8b1c52e},{1716,0x54315cd3a98b4},{1716,0x577833a4b1e3d},{1716,0x5cda11174db68},{1716,0x639cbbe1a0818},{1716,0x64938ee8d3461},{1716,0x68b467fa28665},{1716,0x6bf4dccda988d},{1716,0x707ce591b9820},{1716,0x78058ee2327f5},{1716,0x82f0e725b43a6},{1716,0x8349fbf37e59c},{1716,0x8557f31326bbb},{1716,0x859fd19af57c9},{1716,0x8c7cbbb955136},{1716,0x940c91f5165bc},{1716,0x95f9282e3c5f5},{1716,0x97d467cc83162},{1716,0x9ddf8fecd44d3},{1716,0xa3eab80d25844},{1716,0xadd5d50effc0e},{1716,0xae754eb0697e0},{1716,0xb410955d21242},{1716,0xc09a49761976a},{1716,0xc6bbeacff5c65},{1716,0xc969cbb8c1210},{1716,0xe14d3e56a01ce},{1716,0xe374dc47657f2},{1716,0xef9beaa7aa583},{1716,0xf6fda2272d9fe},{1716,0xf72bc0e36ba0a},
{1717,0xc96417cff7f8},{1717,0xcc0af149d2f5},{1717,0xd5db6a3643d3},{1717,0x14ed8cdf25859},{1717,0x1996297b43293},{1717,0x1b900e23046f8},{1717,0x295d8ccaffce8},{1717,0x336cf8a95615a},{1717,0x37798f428562f},{1717,0x523d8ca2b4606},{1717,0x54315cd3a98b4},{1717,0x577833a4b1e3d},{1717,0x5cda11174db68},{1717,0x6bf4dccda988d},{1717,0x78058ee2327f5},{1717,0x780cbbcd7aca7},{1717,0x8244bbc367eee},{1717,0x8349fbf37e59c},{1717,0x8557f31326bbb},{1717,0x859fd19af57c9},{1717,0x8c7cbbb955136},{1717,0x8e7c41db39e75},{1717,0x940c91f5165bc},{1717,0x9ddf8fecd44d3},{1717,0xa3eab80d25844},{1717,0xc2dc1e16b06fe},{1717,0xc969cbb8c1210},{1717,0xd33656e3c8147},{1717,0xd54f9a781a9a0},{1717,0xdb2beabbd00f4},{1717,0xe374dc47657f2},{1717,0xef9beaa7aa583},{1717,0xfe7ef4214dc9d},
{1718,0x479cb8a8d06c},{1718,0x8c0ecf88afa8},{1718,0xa4f9d0c13535},{1718,0xc96417cff7f8},{1718,0xd5db6a3643d3},{1718,0x12e883edd554f},{1718,0x1996297b43293},{1718,0x1cdbfc322618f},{1718,0x1f258cd512aa1},{1718,0x1f4e814c85ab8},{1718,0x336cf8a95615a},{1718,0x3a2a17eb6bfe6},{1718,0x3dce75f3fedda},{1718,0x42c5832476590},{1718,0x523d8ca2b4606},{1718,0x54315cd3a98b4},{1718,0x8244bbc367eee},{1718,0x8349fbf37e59c},{1718,0x8557f31326bbb},{1718,0x859fd19af57c9},{1718,0x8b28a6dc3f255},{1718,0x923ab504bb235},{1718,0x940c91f5165bc},{1718,0x9893dd094ccf2},{1718,0x9d760e813ed75},{1718,0x9ddf8fecd44d3},{1718,0xa75785c80536e},{1718,0xbe5390200fe87},{1718,0xc20f62de21a33},{1718,0xc2dc1e16b06fe},{1718,0xc969cbb8c1210},{1718,0xd54f9a781a9a0},{1718,0xdb2beabbd00f4},{1718,0xe563eab1bd33c},{1718,0xec4ba4d0254b9},{1718,0xef9beaa7aa583},{1718,0xfe7ef4214dc9d},
{1719,0xa4f9d0c13535},{1719,0xc96417cff7f8},{1719,0x1cdbfc322618f},{1719,0x1d6f47b7c50d8},{1719,0x1f258cd512aa1},{1719,0x1f4e814c85ab8},{1719,0x37798f428562f},{1719,0x3a2a17eb6bfe6},{1719,0x47d3c80f9d078},{1719,0x52950f4326275},{1719,0x586409ed54d11},{1719,0x5a6a49dad609f},{1719,0x608c38f3be9bb},{1719,0x6dd4bbd78da5f},{1719,0x81c9f1d2168fb},{1719,0x8244bbc367eee},{1719,0x8349fbf37e59c},{1719,0x8557f31326bbb},{1719,0x896beb0c66eb8},{1719,0x8abdceb1b8ab5},{1719,0x8c0a8ece48798},{1719,0x905b7b6ffa855},{1719,0x9ddf8fecd44d3},{1719,0xa0ecbba52f5c5},{1719,0xaeb8533f9bff1},{1719,0xb86d8c3df7cd1},{1719,0xbc83eada08a1e},{1719,0xbe5390200fe87},{1719,0xc2dc1e16b06fe},{1719,0xd33656e3c8147},{1719,0xd54f9a781a9a0},{1719,0xe35b15ec53c95},{1719,0xe563eab1bd33c},{1719,0xe6b7e77207067},{1719,0xef9beaa7aa583},{1719,0xfe7ef4214dc9d},
{1720,0x8ebc116f8a1f},{1720,0xc96417cff7f8},{1720,0x108a5d5a34b69},{1720,0x1cdbfc322618f},{1720,0x1e5ee482255c8},{1720,0x1f258cd512aa1},{1720,0x1f4e814c85ab8},{1720,0x37798f428562f},{1720,0x5258e1cd039a0},{1720,0x586409ed54d11},{1720,0x5e68c12ad60f5},{1720,0x5e6f320da6082},{1720,0x6009243d21033},{1720,0x608c38f3be9bb},{1720,0x62db35251549b},{1720,0x676808f95f694},{1720,0x81c9f1d2168fb},{1720,0x8244bbc367eee},{1720,0x8557f31326bbb},{1720,0x896beb0c66eb8},{1720,0x905b7b6ffa855},{1720,0x9419ee997bc15},{1720,0x987e878181f70},{1720,0xac4724fb77681},{1720,0xaeb8533f9bff1},{1720,0xb02e4e50c5035},{1720,0xb86d8c3df7cd1},{1720,0xc09d52ec940b4},{1720,0xc2dc1e16b06fe},{1720,0xd33656e3c8147},{1720,0xd54f9a781a9a0},{1720,0xde92aacf7376f},{1720,0xe35b15ec53c95},{1720,0xe6b7e77207067},{1720,0xe76f2d6f88aea},{1720,0xef9beaa7aa583},{1720,0xf62d1c16ebab2},{1720,0xfa2588cc18c0d},{1720,0xfb9db66fd73bd},{1720,0xfe7ef4214dc9d},{1720,0xff893bfeaec12},
{1721,0x8ebc116f8a1f},{1721,0xc96417cff7f8},{1721,0xf912f4dff7f1},{1721,0x1e22fd4f8d48c},{1721,0x1f258cd512aa1},{1721,0x1f4e814c85ab8},{1721,0x2cf1246f7f4cd},{1721,0x2e79a035b9714},{1721,0x3421192b6d86b},{1721,0x3f97588919d6a},{1721,0x45983e6d30487},{1721,0x4a749130931d6},{1721,0x4af12836adb92},{1721,0x4f52f7021e545},{1721,0x5258e1cd039a0},{1721,0x586409ed54d11},{1721,0x5e68c12ad60f5},{1721,0x676808f95f694},{1721,0x7090aa6e99ad5},{1721,0x71e05a1efe658},{1721,0x79b94be3d3f16},{1721,0x8161aec9f5955},{1721,0x81c9f1d2168fb},{1721,0x8557f31326bbb},{1721,0x896beb0c66eb8},{1721,0x8f6bdea59a365},{1721,0x987e878181f70},{1721,0x98cf8c074f11e},{1721,0xac4724fb77681},{1721,0xaeb8533f9bff1},{1721,0xb02e4e50c5035},{1721,0xb55c94b183843},{1721,0xbfbebdef9fbe4},{1721,0xc2dc1e16b06fe},{1721,0xcd5f429a88c76},{1721,0xcf2a1ef3a32ba},{1721,0xd52b04d7b99d7},{1721,0xd54f9a781a9a0},{1721,0xde92aacf7376f},{1721,0xe6b7e77207067},{1721,0xe76f2d6f88aea},{1721,0xf62d1c16ebab2},{1721,0xfe7ef4214dc9d},
{1722,0x48f367e1e117},{1722,0x744e690cea11},{1722,0xbbbdd35f9b33},{1722,0xf912f4dff7f1},{1722,0x1e22fd4f8d48c},{1722,0x1f258cd512aa1},{1722,0x23fc914067368},{1722,0x2401f64e5d0cc},{1722,0x2cf1246f7f4cd},{1722,0x2e79a035b9714},{1722,0x2f5e72af16405},{1722,0x4a749130931d6},{1722,0x51376335792f5},{1722,0x5258e1cd039a0},{1722,0x586409ed54d11},{1722,0x688e746a1a720},{1722,0x7090aa6e99ad5},{1722,0x71e05a1efe658},{1722,0x79b94be3d3f16},{1722,0x81c9f1d2168fb},{1722,0x8557f31326bbb},{1722,0x86a857a3a1c6a},{1722,0x8af466d2a10ff},{1722,0x909762a292991},{1722,0x98c7fe8d5d4c5},{1722,0x98cf8c074f11e},{1722,0xa0ecbba52f5c5},{1722,0xaeb8533f9bff1},{1722,0xb02e4e50c5035},{1722,0xbef139199f956},{1722,0xc2dc1e16b06fe},{1722,0xc7607c901c3d2},{1722,0xcf2a1ef3a32ba},{1722,0xe6adefd7f06aa},{1722,0xe6b7e77207067},{1722,0xe76f2d6f88aea},{1722,0xec2db136d941b},{1722,0xf3f7608b1fe23},{1722,0xfb1eb6d84df85},{1722,0xfd67824216fb0},{1722,0xfe7ef4214dc9d},
{1723,0xe40cabd84742},{1723,0xf912f4dff7f1},{1723,0x1e22fd4f8d48c},{1723,0x1f258cd512aa1},{1723,0x23fc914067368},{1723,0x2401f64e5d0cc},{1723,0x2e79a035b9714},{1723,0x2f5e72af16405},{1723,0x43adb7252aab6},{1723,0x4a749130931d6},{1723,0x4fd03e631d6ce},{1723,0x5258e1cd039a0},{1723,0x688e746a1a720},{1723,0x6f0b62f7591fb},{1723,0x7090aa6e99ad5},{1723,0x79b94be3d3f16},{1723,0x7e0da1b1913c4},{1723,0x81c9f1d2168fb},{1723,0x8557f31326bbb},{1723,0x86a857a3a1c6a},{1723,0x8d14d6aba970d},{1723,0x909762a292991},{1723,0xa0287dc2124a1},{1723,0xb02e4e50c5035},{1723,0xb244057cdcc7c},{1723,0xb787cf47f3bb9},{1723,0xbd06ff90a63a6},{1723,0xbef139199f956},{1723,0xc03b54f5ba5a0},{1723,0xc2dc1e16b06fe},{1723,0xcf2a1ef3a32ba},{1723,0xdc2e6f3478279},{1723,0xdfc4c29065f87},{1723,0xe6adefd7f06aa},{1723,0xe6b7e77207067},{1723,0xec2db136d941b},{1723,0xf5c4d90ecab0c},{1723,0xfd67824216fb0},{1723,0xfe9e2961e274c},{1723,0xff0fe489bf192},
{1724,0xf912f4dff7f1},{1724,0x1cb51cf2cdec7},{1724,0x1e22fd4f8d48c},{1724,0x23fc914067368},{1724,0x299985953f9f1},{1724,0x2c5aadf70bc8c},{1724,0x2e79a035b9714},{1724,0x3b2ebf7fbe705},{1724,0x4a749130931d6},{1724,0x4f34ead337b00},{1724,0x4fd03e631d6ce},{1724,0x688e746a1a720},{1724,0x6f0b62f7591fb},{1724,0x7090aa6e99ad5},{1724,0x75c04fe32fd5d},{1724,0x79b94be3d3f16},{1724,0x81c9f1d2168fb},{1724,0x824e73a4f030e},{1724,0x8557f31326bbb},{1724,0x86a857a3a1c6a},{1724,0x8f7d2eab604c4},{1724,0x909762a292991},{1724,0x92ee6a9c835e9},{1724,0x940c3cdb46b47},{1724,0x958e724a59ad0},{1724,0x9a493c90e67c5},{1724,0xa4c23add291b4},{1724,0xb244057cdcc7c},{1724,0xcf2a1ef3a32ba},{1724,0xdec7b13dc1051},{1724,0xf20938e7414bb},{1724,0xf5c4d90ecab0c},{1724,0xfe9e2961e274c},
{1725,0x10234e1ada8d8},{1725,0x1e22fd4f8d48c},{1725,0x21f34217c252a},{1725,0x23fc914067368},{1725,0x299985953f9f1},{1725,0x2e79a035b9714},{1725,0x302cb5e6f642a},{1725,0x3b2ebf7fbe705},{1725,0x3e60b1694e5ce},{1725,0x4a749130931d6},{1725,0x51068802fa541},{1725,0x5764acdf62f36},{1725,0x598182cd56c7b},{1725,0x5e7c58a8ea800},{1725,0x688e746a1a720},{1725,0x6c9e14b7c22c3},{1725,0x6d0273e1f44ff},{1725,0x7090aa6e99ad5},{1725,0x779b6606de1c5},{1725,0x824e73a4f030e},{1725,0x8557f31326bbb},{1725,0x86a857a3a1c6a},{1725,0x9001a0a41667b},{1725,0x909762a292991},{1725,0x92ee6a9c835e9},{1725,0x9a493c90e67c5},{1725,0xaac28939cae72},{1725,0xaf29a6bc72916},{1725,0xb244057cdcc7c},{1725,0xc9d912326843b},{1725,0xcf2a1ef3a32ba},{1725,0xda83303f5734c},{1725,0xdb0361b4a0c2b},{1725,0xe0f6015037c48},{1725,0xe6adefd7f06aa},{1725,0xef009717c49b5},{1725,0xf20938e7414bb},{1725,0xf5c4d90ecab0c},
{1726,0xd8706e3f09ba},{1726,0x10234e1ada8d8},{1726,0x1e22fd4f8d48c},{1726,0x23fc914067368},{1726,0x299985953f9f1},{1726,0x2e79a035b9714},{1726,0x302cb5e6f642a},{1726,0x3ac3d517781e1},{1726,0x3e60b1694e5ce},{1726,0x4a749130931d6},{1726,0x598182cd56c7b},{1726,0x5e7c58a8ea800},{1726,0x688e746a1a720},{1726,0x6b2f3d8b1087e},{1726,0x6c9e14b7c22c3},{1726,0x779b6606de1c5},{1726,0x824e73a4f030e},{1726,0x8557f31326bbb},{1726,0x9001a0a41667b},{1726,0x909762a292991},{1726,0x92ee6a9c835e9},{1726,0x95b549406570f},{1726,0x9a493c90e67c5},{1726,0xaac28939cae72},{1726,0xaf29a6bc72916},{1726,0xaf53a6cf81bbf},{1726,0xc9d912326843b},{1726,0xcd6e320506a81},{1726,0xd2773fe59ea11},{1726,0xda83303f5734c},{1726,0xdd910a1df58b5},{1726,0xe0f6015037c48},{1726,0xe6adefd7f06aa},{1726,0xf20938e7414bb},{1726,0xf5c4d90ecab0c},{1726,0xfa346040bfaa1},
{1727,0x28c676ab7b8a},{1727,0xd8706e3f09ba},{1727,0xf6125a6fb617},{1727,0x10234e1ada8d8},{1727,0x155c9f6646642},{1727,0x1cac985356cd5},{1727,0x1e22fd4f8d48c},{1727,0x1f4c61b90c194},{1727,0x29e882a0029c7},{1727,0x2e79a035b9714},{1727,0x2f379dcb1cd12},{1727,0x302cb5e6f642a},{1727,0x3ac3d517781e1},{1727,0x3d7c98bbdd328},{1727,0x3e60b1694e5ce},{1727,0x3f22d9dd2d88f},{1727,0x4a749130931d6},{1727,0x4f0e15ef3e40d},{1727,0x5fbb7a752e24c},{1727,0x688e746a1a720},{1727,0x6c9e14b7c22c3},{1727,0x824e73a4f030e},{1727,0x844e78c2628c3},{1727,0x8557f31326bbb},{1727,0x8b6d52df7356a},{1727,0x909762a292991},{1727,0x92ee6a9c835e9},{1727,0x95b549406570f},{1727,0x9a493c90e67c5},{1727,0xaac28939cae72},{1727,0xaf53a6cf81bbf},{1727,0xc9ac24cc7634e},{1727,0xc9d912326843b},{1727,0xd6b8cdd412a2f},{1727,0xe8e6fdbbd3a21},{1727,0xf153577d7679c},{1727,0xf20938e7414bb},{1727,0xf340521e7eb44},{1727,0xf5c4d90ecab0c},{1727,0xfeebd329d5533},
{1728,0x28c676ab7b8a},{1728,0x8c5fcb4ca75a},{1728,0x155c9f6646642},{1728,0x195c8ea8d6fda},{1728,0x1cac985356cd5},{1728,0x1e22fd4f8d48c},{1728,0x1f4c61b90c194},{1728,0x254ef1b4b17f5},{1728,0x2bbecf8586aef},{1728,0x2e79a035b9714},{1728,0x2f379dcb1cd12},{1728,0x302cb5e6f642a},{1728,0x38aa388f7273d},{1728,0x3f22d9dd2d88f},{1728,0x4245e619f3c2c},{1728,0x4a749130931d6},{1728,0x4b434babe2645},{1728,0x4f0e15ef3e40d},{1728,0x57cd8177ed15f},{1728,0x5dcd046334cca},{1728,0x5fe5863066b1b},{1728,0x688e746a1a720},{1728,0x6c9e14b7c22c3},{1728,0x73e7910e01bed},{1728,0x7d176160a6970},{1728,0x824e73a4f030e},{1728,0x844e78c2628c3},{1728,0x8557f31326bbb},{1728,0x8df8ddc3a1f41},{1728,0x95b549406570f},{1728,0x9a493c90e67c5},{1728,0x9ea6424991d80},{1728,0x9eef4b6cdb063},{1728,0xaac28939cae72},{1728,0xaf53a6cf81bbf},{1728,0xb6e8309e9a81d},{1728,0xc6d36cb0ab39b},{1728,0xd0ae6fdb6183d},{1728,0xd6bea8c2bbf18},{1728,0xf153577d7679c},{1728,0xf20938e7414bb},{1728,0xf340521e7eb44},{1728,0xfeebd329d5533},
{1729,0x28c676ab7b8a},{1729,0x155c9f6646642},{1729,0x195c8ea8d6fda},{1729,0x1e22fd4f8d48c},{1729,0x254ef1b4b17f5},{1729,0x302cb5e6f642a},{1729,0x38aa388f7273d},{1729,0x3a3d0ce5a1f1a},{1729,0x454f34224b995},{1729,0x4f0e15ef3e40d},{1729,0x57cd8177ed15f},{1729,0x5f1d7a64fd7f2},{1729,0x5fe5863066b1b},{1729,0x6c9e14b7c22c3},{1729,0x7d4b793db2102},{1729,0x824e73a4f030e},{1729,0x8557f31326bbb},{1729,0x8df8ddc3a1f41},{1729,0x97c35707b6cfa},{1729,0x99cc9ecbb51e4},{1729,0x9ea6424991d80},{1729,0xa6fcf48c89ca0},{1729,0xa8de5563b49a2},{1729,0xaf53a6cf81bbf},{1729,0xb949fa82a6c41},{1729,0xc0010b55719fe},{1729,0xc84310da7163f},{1729,0xce0f53c119a73},{1729,0xd0ae6fdb6183d},{1729,0xd49383e3cb931},{1729,0xd7cb72cc362ae},{1729,0xdcdeabc4e8173},{1729,0xf153577d7679c},{1729,0xf69520e6dd613},{1729,0xfeebd329d5533},
{1730,0x28c676ab7b8a},{1730,0xdf47b09c75b2},{1730,0x13a884d94f2c6},{1730,0x155c9f6646642},{1730,0x193b1e1a12b88},{1730,0x195c8ea8d6fda},{1730,0x1e22fd4f8d48c},{1730,0x24c4a247e6a02},{1730,0x254ef1b4b17f5},{1730,0x281d58f20bb40},{1730,0x2aac2a8d63270},{1730,0x302cb5e6f642a},{1730,0x38aa388f7273d},{1730,0x3a3d0ce5a1f1a},{1730,0x4f0e15ef3e40d},{1730,0x5f1d7a64fd7f2},{1730,0x5fe5863066b1b},{1730,0x6c9e14b7c22c3},{1730,0x6e094272d4708},{1730,0x7b05853de4056},{1730,0x824e73a4f030e},{1730,0x8557f31326bbb},{1730,0x8df8ddc3a1f41},{1730,0x964f900699e61},{1730,0x97c35707b6cfa},{1730,0x9ea6424991d80},{1730,0xa23d7a1d929ba},{1730,0xa6fcf48c89ca0},{1730,0xa8de5563b49a2},{1730,0xa92ee641be19b},{1730,0xad0cf338932de},{1730,0xaf53a6cf81bbf},{1730,0xb7aa591279adf},{1730,0xb949fa82a6c41},{1730,0xbb9f1d016be07},{1730,0xc0010b55719fe},{1730,0xd49383e3cb931},{1730,0xdcdeabc4e8173},{1730,0xf153577d7679c},{1730,0xf29f30626bb52},
{1731,0xdf47b09c75b2},{1731,0x1146481ac192e},{1731,0x13a884d94f2c6},{1731,0x1515874d3120b},{1731,0x155c9f6646642},{1731,0x195c8ea8d6fda},{1731,0x1e22fd4f8d48c},{1731,0x1f1098785ecee},{1731,0x254ef1b4b17f5},{1731,0x281d58f20bb40},{1731,0x302cb5e6f642a},{1731,0x38aa388f7273d},{1731,0x3a3d0ce5a1f1a},{1731,0x3d3db76967578},{1731,0x567d4f1929abf},{1731,0x5af32a2ba20c3},{1731,0x5f1d7a64fd7f2},{1731,0x69351802446f2},{1731,0x6c9e14b7c22c3},{1731,0x78fa19890c9bf},{1731,0x7b05853de4056},{1731,0x7cf13acc3e893},{1731,0x824e73a4f030e},{1731,0x83fde7e4590ca},{1731,0x97adb36ec1af6},{1731,0x97c35707b6cfa},{1731,0x9ea6424991d80},{1731,0xa6fcf48c89ca0},{1731,0xa8de5563b49a2},{1731,0xaf53a6cf81bbf},{1731,0xb949fa82a6c41},{1731,0xbb9f1d016be07},{1731,0xc0010b55719fe},{1731,0xc4c640c833edd},{1731,0xd49383e3cb931},{1731,0xdcdeabc4e8173},{1731,0xe4c4c2610677e},{1731,0xed87eac62b45b},{1731,0xfc8e6e068eeb8},
{1732,0xa24b036f8f54},{1732,0x10ce7ff18b43c},{1732,0x13a884d94f2c6},{1732,0x1515874d3120b},{1732,0x155c9f6646642},{1732,0x168289c113150},{1732,0x18824812a55fc},{1732,0x195c8ea8d6fda},{1732,0x1d29ea8886de7},{1732,0x27ccd625f42ae},{1732,0x302cb5e6f642a},{1732,0x38aa388f7273d},{1732,0x3a3d0ce5a1f1a},{1732,0x3d3db76967578},{1732,0x4cad43a54fb86},{1732,0x4cb0e6f49d58e},{1732,0x58d2290c3f87e},{1732,0x5a8db63df2521},{1732,0x5f1d7a64fd7f2},{1732,0x6c9e14b7c22c3},{1732,0x78fa19890c9bf},{1732,0x824e73a4f030e},{1732,0x83eaf09f44c76},{1732,0x8cfe1389d8f02},{1732,0x964f900699e61},{1732,0x97adb36ec1af6},{1732,0x97c35707b6cfa},{1732,0x9ea6424991d80},{1732,0xa6fcf48c89ca0},{1732,0xa8c25f58050e2},{1732,0xa8de5563b49a2},{1732,0xbb9f1d016be07},{1732,0xc0010b55719fe},{1732,0xd49383e3cb931},{1732,0xdb45dc38e0c82},{1732,0xe7cf82db2042a},{1732,0xe9b286a44959c},{1732,0xed2ab29607a96},{1732,0xed87eac62b45b},{1732,0xf2c059f1586e1},{1732,0xfc8e6e068eeb8},
{1733,0x5666c527ba14},{1733,0x85e18d7d61e4},{1733,0x123b82656d381},{1733,0x13a884d94f2c6},{1733,0x1515874d3120b},{1733,0x168289c113150},{1733,0x17ef8c34f5095},{1733,0x18824812a55fc},{1733,0x1be2ee5d878fa},{1733,0x21ea9d6022b78},{1733,0x27ccd625f42ae},{1733,0x302cb5e6f642a},{1733,0x3104f185cb0e4},{1733,0x38aa388f7273d},{1733,0x3a3d0ce5a1f1a},{1733,0x3d3db76967578},{1733,0x3ed91a958d635},{1733,0x4375284578d50},{1733,0x459469ac5f497},{1733,0x4cad43a54fb86},{1733,0x4cb0e6f49d58e},{1733,0x721d55faf890c},{1733,0x78fa19890c9bf},{1733,0x824e73a4f030e},{1733,0x83eaf09f44c76},{1733,0x8cfe1389d8f02},{1733,0x9255e37c4d4fc},{1733,0x964f900699e61},{1733,0x97c35707b6cfa},{1733,0xa6fcf48c89ca0},{1733,0xa8de5563b49a2},{1733,0xb7bc931d7bed2},{1733,0xbb9f1d016be07},{1733,0xc0010b55719fe},{1733,0xc81950729bb9c},{1733,0xd49383e3cb931},{1733,0xdb45dc38e0c82},{1733,0xe10db754fb6c6},{1733,0xf2c059f1586e1},
{1734,0x5666c527ba14},{1734,0x85e18d7d61e4},{1734,0xc877895e566d},{1734,0x13a884d94f2c6},{1734,0x1515874d3120b},{1734,0x168289c113150},{1734,0x1ac9911cb8f1f},{1734,0x1e94bac61d478},{1734,0x210f2fa09defb},{1734,0x21ea9d6022b78},{1734,0x22cde8209ebae},{1734,0x35a0ff35b67ff},{1734,0x364dfa04ffbdd},{1734,0x38aa388f7273d},{1734,0x3a3d0ce5a1f1a},{1734,0x3d3db76967578},{1734,0x3ed91a958d635},{1734,0x4375284578d50},{1734,0x459469ac5f497},{1734,0x48a0921850e50},{1734,0x4cad43a54fb86},{1734,0x4cb0e6f49d58e},{1734,0x4ce0542c6474a},{1734,0x57ad86b22ff42},{1734,0x78fa19890c9bf},{1734,0x7ac5cc8482294},{1734,0x824e73a4f030e},{1734,0x83eaf09f44c76},{1734,0x8fa9fb83131ff},{1734,0x9255e37c4d4fc},{1734,0x93a7bfc3250ef},{1734,0x93fb6196bf108},{1734,0x964f900699e61},{1734,0x98f7604a0ebd2},{1734,0x9d058361360f0},{1734,0xa8de5563b49a2},{1734,0xbb9f1d016be07},{1734,0xbce1607991deb},{1734,0xd385e0db23114},{1734,0xd49383e3cb931},{1734,0xfa021e375b1f0},
{1735,0x5666c527ba14},{1735,0x7887656840f1},{1735,0x85e18d7d61e4},{1735,0xae34e56411d4},{1735,0x13a884d94f2c6},{1735,0x1515874d3120b},{1735,0x1ac9911cb8f1f},{1735,0x1d599322a00b3},{1735,0x1e94bac61d478},{1735,0x210f2fa09defb},{1735,0x231dd4c5efd41},{1735,0x290ba9a38c7d1},{1735,0x2f67c3e339010},{1735,0x320f9426add81},{1735,0x35a0ff35b67ff},{1735,0x364dfa04ffbdd},{1735,0x3a3d0ce5a1f1a},{1735,0x3ed91a958d635},{1735,0x4cad43a54fb86},{1735,0x4cb0e6f49d58e},{1735,0x4ce0542c6474a},{1735,0x4f56d46f38022},{1735,0x5bbc94588f49c},{1735,0x63b98814e8f0d},{1735,0x6474652aa8961},{1735,0x78fa19890c9bf},{1735,0x7ac5cc8482294},{1735,0x83b8de2e68046},{1735,0x8570bef465a87},{1735,0x8c8d2543c12d6},{1735,0x8fa9fb83131ff},{1735,0x91f33e18037ac},{1735,0x9255e37c4d4fc},{1735,0x964f900699e61},{1735,0x9d058361360f0},{1735,0x9e4700d0f86b5},{1735,0x9ffb8b90c22e2},{1735,0xbb9f1d016be07},{1735,0xbce1607991deb},{1735,0xd273a2d9c1cb4},{1735,0xd385e0db23114},{1735,0xd49383e3cb931},{1735,0xdb45dc38e0c82},{1735,0xfa021e375b1f0},{1735,0xfa8f8be685f40},{1735,0xfc24e65b7e886},{1735,0xfd375c29facb2},
{1736,0x5666c527ba14},{1736,0x7887656840f1},{1736,0x837665d06ed7},{1736,0x85e18d7d61e4},{1736,0xae34e56411d4},{1736,0x13a884d94f2c6},{1736,0x1515874d3120b},{1736,0x1c19ae09907a6},{1736,0x210f2fa09defb},{1736,0x290ba9a38c7d1},{1736,0x2cbff39fc429e},{1736,0x320f9426add81},{1736,0x35a0ff35b67ff},{1736,0x3a3d0ce5a1f1a},{1736,0x3ed91a958d635},{1736,0x4a759f0dcba5d},{1736,0x4cad43a54fb86},{1736,0x4ce0542c6474a},{1736,0x4e9c98e947368},{1736,0x5ddf5c7cb2b32},{1736,0x62dba9f4e9738},{1736,0x7ac5cc8482294},{1736,0x7ad159c234c16},{1736,0x8570bef465a87},{1736,0x8c8d2543c12d6},{1736,0x8fa9fb83131ff},{1736,0x91f33e18037ac},{1736,0x964f900699e61},{1736,0x9aedbd014f3d5},{1736,0x9e4700d0f86b5},{1736,0x9ffb8b90c22e2},{1736,0xa2d590788616c},{1736,0xad02216c189dc},{1736,0xbce1607991deb},{1736,0xc9c376184a589},{1736,0xcea4ab79b6b4f},{1736,0xd273a2d9c1cb4},{1736,0xd363461619393},{1736,0xd49383e3cb931},{1736,0xd88296c46dc6e},{1736,0xdb45dc38e0c82},{1736,0xdd1ea47459389},{1736,0xe4b80c7899bab},{1736,0xee0322b280437},{1736,0xf53feb5f9c45d},{1736,0xfc24e65b7e886},{1736,0xfd375c29facb2},
{1737,0x1437e58723ca},{1737,0x5666c527ba14},{1737,0x7887656840f1},{1737,0x837665d06ed7},{1737,0x85e18d7d61e4},{1737,0x13a884d94f2c6},{1737,0x1515874d3120b},{1737,0x1592ee3b29dc8},{1737,0x1c19ae09907a6},{1737,0x210f2fa09defb},{1737,0x290ba9a38c7d1},{1737,0x2969dbf2d0e20},{1737,0x2cbff39fc429e},{1737,0x35a0ff35b67ff},{1737,0x4a759f0dcba5d},{1737,0x4bf0b0f00d06b},{1737,0x57067610c9fa9},{1737,0x5b3f0aa8eaa19},{1737,0x6b816228c6699},{1737,0x7ac5cc8482294},{1737,0x8c8d2543c12d6},{1737,0x8fa9fb83131ff},{1737,0x964f900699e61},{1737,0xa2d590788616c},{1737,0xabe78ebd708e0},{1737,0xad02216c189dc},{1737,0xad98e85ebbf12},{1737,0xbb7b200ed9a4e},{1737,0xbce1607991deb},{1737,0xc9c376184a589},{1737,0xcea4ab79b6b4f},{1737,0xd363461619393},{1737,0xd49383e3cb931},{1737,0xe1bab22444aa4},{1737,0xe34b0a04b7c66},{1737,0xefb06e94b178b},{1737,0xf53feb5f9c45d},{1737,0xf8fa39fc6ed4a},{1737,0xfc24e65b7e886},
{1738,0x131000a0b3a8},{1738,0x7887656840f1},{1738,0x7f6cbcbac018},{1738,0x1592ee3b29dc8},{1738,0x1701b8fc1b334},{1738,0x20195772fb417},{1738,0x210f2fa09defb},{1738,0x2488a6916485b},{1738,0x28c26281be2fd},{1738,0x290ba9a38c7d1},{1738,0x2cbff39fc429e},{1738,0x35a0ff35b67ff},{1738,0x4a759f0dcba5d},{1738,0x5053c4f971252},{1738,0x541dfe6580dc0},{1738,0x57067610c9fa9},{1738,0x5b3f0aa8eaa19},{1738,0x7062978a32c5f},{1738,0x77e52771241a7},{1738,0x7ac5cc8482294},{1738,0x8fa9fb83131ff},{1738,0x9b263ce887332},{1738,0xa2d590788616c},{1738,0xabe78ebd708e0},{1738,0xb186a0cc962c9},{1738,0xbce1607991deb},{1738,0xc3104d3e9eee9},{1738,0xc9c376184a589},{1738,0xd363461619393},{1738,0xd49383e3cb931},{1738,0xe1bab22444aa4},{1738,0xea200b1aa7ce6},{1738,0xefb06e94b178b},{1738,0xf53feb5f9c45d},{1738,0xf8fa39fc6ed4a},{1738,0xfc24e65b7e886},
{1739,0x131000a0b3a8},{1739,0xc229baa46b7f},{1739,0xf1f85b6d9f0c},{1739,0x1701b8fc1b334},{1739,0x20195772fb417},{1739,0x28c26281be2fd},{1739,0x290ba9a38c7d1},{1739,0x2cbff39fc429e},{1739,0x3078c11470003},{1739,0x3139a133c7289},{1739,0x4a759f0dcba5d},{1739,0x5053c4f971252},{1739,0x5d6c1b4bff35e},{1739,0x666a7d0d4058a},{1739,0x6e7d5bf646901},{1739,0x7062978a32c5f},{1739,0x77e52771241a7},{1739,0x7b79c76f03796},{1739,0x8888c62d4f74b},{1739,0x8fa9fb83131ff},{1739,0xa2d590788616c},{1739,0xab50ae7bb06c0},{1739,0xabe78ebd708e0},{1739,0xae403f546369c},{1739,0xb0f1344cbad19},{1739,0xb186a0cc962c9},{1739,0xbd917e7552bba},{1739,0xc274f37157b2e},{1739,0xc9c376184a589},{1739,0xd363461619393},{1739,0xd49383e3cb931},{1739,0xe1bab22444aa4},{1739,0xe45198badabf8},{1739,0xefb06e94b178b},{1739,0xf18d228b8b518},{1739,0xf53feb5f9c45d},{1739,0xfa4b9340bbdca},
{1740,0x131000a0b3a8},{1740,0xf1f85b6d9f0c},{1740,0x11922a5330f5a},{1740,0x1701b8fc1b334},{1740,0x28c26281be2fd},{1740,0x290ba9a38c7d1},{1740,0x2cbff39fc429e},{1740,0x2cc2355bfe3ea},{1740,0x3139a133c7289},{1740,0x3b025e4b4b806},{1740,0x474b59b4a0e8c},{1740,0x4a759f0dcba5d},{1740,0x5053c4f971252},{1740,0x53f0dd2ce56dd},{1740,0x5d838a3a253f6},{1740,0x6e7d5bf646901},{1740,0x7062978a32c5f},{1740,0x77e52771241a7},{1740,0x7b79c76f03796},{1740,0x8f27abf3c4c81},{1740,0x8fa9fb83131ff},{1740,0xab50ae7bb06c0},{1740,0xabe78ebd708e0},{1740,0xbee458c675dd4},{1740,0xc9c376184a589},{1740,0xd363461619393},{1740,0xe1bab22444aa4},{1740,0xe2b2f3a9c44b4},{1740,0xe45198badabf8},{1740,0xee994ed83cfa6},{1740,0xefb06e94b178b},{1740,0xf18d228b8b518},{1740,0xf53feb5f9c45d},{1740,0xf543ae43fd131},{1740,0xf92bacb3cb40c},{1740,0xfa4b9340bbdca},{1740,0xfb77eb8c354a8},
{1741,0x131000a0b3a8},{1741,0x752b3ab5f47a},{1741,0x9a83ebc14334},{1741,0xd6218b8a367d},{1741,0x28c26281be2fd},{1741,0x290ba9a38c7d1},{1741,0x2cc2355bfe3ea},{1741,0x3139a133c7289},{1741,0x40fa60eeb1ddc},{1741,0x5053c4f971252},{1741,0x53f0dd2ce56dd},{1741,0x58cb03ab7a1de},{1741,0x6a3a8b72f17c1},{1741,0x7062978a32c5f},{1741,0x75d226331d039},{1741,0x77e52771241a7},{1741,0x8f27abf3c4c81},{1741,0x8fa9fb83131ff},{1741,0xa1d0a5e0cb734},{1741,0xab50ae7bb06c0},{1741,0xabe78ebd708e0},{1741,0xbee458c675dd4},{1741,0xc7fd78bc540a0},{1741,0xc9c376184a589},{1741,0xd31990ff16355},{1741,0xe1bab22444aa4},{1741,0xe45198badabf8},{1741,0xee994ed83cfa6},{1741,0xf53feb5f9c45d},{1741,0xf543ae43fd131},{1741,0xf92bacb3cb40c},{1741,0xfa4b9340bbdca},{1741,0xfb77eb8c354a8},
{1742,0x752b3ab5f47a},{1742,0x11922a5330f5a},{1742,0x167aef0953b54},{1742,0x28c26281be2fd},{1742,0x290ba9a38c7d1},{1742,0x3139a133c7289},{1742,0x40fa60eeb1ddc},{1742,0x4dba16535c525},{1742,0x734e940c6f9c5},{1742,0x75d226331d039},{1742,0x84b58c7bcae6b},{1742,0x8f27abf3c4c81},{1742,0x9a5b3f7cc9707},{1742,0xab50ae7bb06c0},{1742,0xb4c7221eff035},{1742,0xc7fd78bc540a0},{1742,0xd022390f8b837},{1742,0xd3baca6b977a3},{1742,0xe45198badabf8},{1742,0xe82a007e40d25},{1742,0xee994ed83cfa6},{1742,0xf5089d3239227},{1742,0xf53feb5f9c45d},{1742,0xf543ae43fd131},{1742,0xf92bacb3cb40c},{1742,0xfa4b9340bbdca},{1742,0xfe9b3b5cb57e6},
{1743,0x6f24a30c7582},{1743,0x752b3ab5f47a},{1743,0x11922a5330f5a},{1743,0x167aef0953b54},{1743,0x25f710ec5a66d},{1743,0x28c26281be2fd},{1743,0x290ba9a38c7d1},{1743,0x2e244c726cff7},{1743,0x3139a133c7289},{1743,0x361b439cdd627},{1743,0x4ace16f47d584},{1743,0x55f6b4e7fd330},{1743,0x5bfa50e326e73},{1743,0x5c19aacba8a29},{1743,0x75d226331d039},{1743,0x7aa7fe739e00e},{1743,0x7ae0c186d8709},{1743,0x827a35cfaf516},{1743,0x84b58c7bcae6b},{1743,0x8f27abf3c4c81},{1743,0x9a5b3f7cc9707},{1743,0xa1b8668dfd8fe},{1743,0xab50ae7bb06c0},{1743,0xb58908c95ca4b},{1743,0xc235ad1be0ed9},{1743,0xc7fd78bc540a0},{1743,0xd022390f8b837},{1743,0xd3baca6b977a3},{1743,0xdebfca1195add},{1743,0xe45198badabf8},{1743,0xe82a007e40d25},{1743,0xee994ed83cfa6},{1743,0xf53feb5f9c45d},{1743,0xf543ae43fd131},{1743,0xf92bacb3cb40c},
{1744,0x752b3ab5f47a},{1744,0x11922a5330f5a},{1744,0x163fd251bd91e},{1744,0x28c26281be2fd},{1744,0x2e244c726cff7},{1744,0x3139a133c7289},{1744,0x361b439cdd627},{1744,0x3bbb4bf05f087},{1744,0x4292aa379a8fd},{1744,0x4ace16f47d584},{1744,0x55564eb412a6c},{1744,0x55f6b4e7fd330},{1744,0x5ae8d357fc5c1},{1744,0x5bfa50e326e73},{1744,0x5c19aacba8a29},{1744,0x65e46d8d8d1b5},{1744,0x75a0ab5fb6b55},{1744,0x75d226331d039},{1744,0x787ac602bc10f},{1744,0x7ae0c186d8709},{1744,0x827a35cfaf516},{1744,0x84b58c7bcae6b},{1744,0x8f27abf3c4c81},{1744,0x95ad977e3cd42},{1744,0x9cb3b2e65d295},{1744,0xa7d0f0fa6741b},{1744,0xa8aeac87d2dad},{1744,0xaa0b98476246b},{1744,0xaa48f8225958b},{1744,0xb4a0a6a5ed7da},{1744,0xb58908c95ca4b},{1744,0xba06371d51d8a},{1744,0xc235ad1be0ed9},{1744,0xdbbcadafef005},{1744,0xdcf6f3e1e021c},{1744,0xe374080b3b669},{1744,0xe45198badabf8},{1744,0xe82a007e40d25},{1744,0xe9f11c3496ab6},{1744,0xee994ed83cfa6},{1744,0xeead82b725962},{1744,0xf06e305df1f03},{1744,0xf291d34aa5546},{1744,0xf92bacb3cb40c},
{1745,0xbc60e6896717},{1745,0x143e9e535a55d},{1745,0x3139a133c7289},{1745,0x361b439cdd627},{1745,0x3bbb4bf05f087},{1745,0x4608fc426d4ac},{1745,0x4ace16f47d584},{1745,0x54da339b419cc},{1745,0x55564eb412a6c},{1745,0x55f6b4e7fd330},{1745,0x5bfa50e326e73},{1745,0x5c19aacba8a29},{1745,0x65e46d8d8d1b5},{1745,0x6afa9eb66a209},{1745,0x75a0ab5fb6b55},{1745,0x75d226331d039},{1745,0x801fd6852b45e},{1745,0x82642ba9bdbeb},{1745,0x827a35cfaf516},{1745,0x85bfded8acebe},{1745,0x8ce60258bc9e4},{1745,0x8f27abf3c4c81},{1745,0x95896c18c84cc},{1745,0x9beb2c3dcbd17},{1745,0x9cb3b2e65d295},{1745,0xa7d0f0fa6741b},{1745,0xa8aeac87d2dad},{1745,0xb5722cd1d9e43},{1745,0xc302a33c730e8},{1745,0xc4846119f7834},{1745,0xcf02f33c0ce90},{1745,0xd022390f8b837},{1745,0xd19cfabf153c0},{1745,0xdbbcadafef005},{1745,0xde2696f4a4c71},{1745,0xe374080b3b669},{1745,0xe45198badabf8},{1745,0xe82a007e40d25},{1745,0xe9f11c3496ab6},{1745,0xee994ed83cfa6},{1745,0xeead82b725962},{1745,0xf291d34aa5546},
{1746,0xa0f0fa0b3f55},{1746,0xbc60e6896717},{1746,0x143e9e535a55d},{1746,0x1a4438752a50a},{1746,0x1c4829598573b},{1746,0x221563a9b7322},{1746,0x26cdd4aab9dbb},{1746,0x3139a133c7289},{1746,0x381c779b409e8},{1746,0x3bbb4bf05f087},{1746,0x413d100151ae4},{1746,0x4ace16f47d584},{1746,0x54da339b419cc},{1746,0x55564eb412a6c},{1746,0x55f6b4e7fd330},{1746,0x5c19aacba8a29},{1746,0x65e46d8d8d1b5},{1746,0x6afa9eb66a209},{1746,0x704477ac9c692},{1746,0x75d226331d039},{1746,0x801fd6852b45e},{1746,0x82642ba9bdbeb},{1746,0x827a35cfaf516},{1746,0x87b01c1435f7d},{1746,0x88c5ebcec1436},{1746,0x8965c7d868b12},{1746,0x8f27abf3c4c81},{1746,0x922ca0f80fc7e},{1746,0x95896c18c84cc},{1746,0x961df1ed9a130},{1746,0x9beb2c3dcbd17},{1746,0xa24cec62cf562},{1746,0xa3b60372f3789},{1746,0xb766ac9e286e0},{1746,0xc31ed0b2815cd},{1746,0xc8de280c4b25e},{1746,0xcf02f33c0ce90},{1746,0xd022390f8b837},{1746,0xd19cfabf153c0},{1746,0xdbbcadafef005},{1746,0xde2696f4a4c71},{1746,0xe374080b3b669},{1746,0xe45198badabf8},{1746,0xe9f11c3496ab6},{1746,0xee994ed83cfa6},{1746,0xf8fb330933d86},{1746,0xfbcb3732f4ab6},{1746,0xfcb67ab2cb6af},
{1747,0x47475d761e05},{1747,0x5fe63c38fc0f},{1747,0xb55b6c09ae38},{1747,0xbc60e6896717},{1747,0x221563a9b7322},{1747,0x3139a133c7289},{1747,0x3bbb4bf05f087},{1747,0x3c30ea12970b2},{1747,0x4ace16f47d584},{1747,0x55f6b4e7fd330},{1747,0x5c19aacba8a29},{1747,0x65e46d8d8d1b5},{1747,0x6b633e0d0cfd8},{1747,0x75d226331d039},{1747,0x76c18bd5f7adf},{1747,0x7c026b84ba3a0},{1747,0x827a35cfaf516},{1747,0x8965c7d868b12},{1747,0x89d61f80643f1},{1747,0x8e37082b0daf0},{1747,0x8f27abf3c4c81},{1747,0x95896c18c84cc},{1747,0x961df1ed9a130},{1747,0x9bc34191a9d9f},{1747,0x9beb2c3dcbd17},{1747,0xa3b60372f3789},{1747,0xa6227c99599e7},{1747,0xb766ac9e286e0},{1747,0xb9445072f4374},{1747,0xbbd3ecf6dd68e},{1747,0xdbbcadafef005},{1747,0xde2696f4a4c71},{1747,0xe374080b3b669},{1747,0xe45198badabf8},{1747,0xed6e1c5e0b799},{1747,0xee994ed83cfa6},{1747,0xfbcb3732f4ab6},
{1748,0x47475d761e05},{1748,0x5fe63c38fc0f},{1748,0xbc60e6896717},{1748,0x3bbb4bf05f087},{1748,0x40db54015b1be},{1748,0x4ace16f47d584},{1748,0x565027072f55e},{1748,0x58f44580f807f},{1748,0x5c19aacba8a29},{1748,0x61aac4e88536a},{1748,0x75d226331d039},{1748,0x7c026b84ba3a0},{1748,0x8e37082b0daf0},{1748,0x8ea58d15dac4a},{1748,0x8f27abf3c4c81},{1748,0x95896c18c84cc},{1748,0x9bc34191a9d9f},{1748,0x9beb2c3dcbd17},{1748,0x9c87b52650919},{1748,0xa994f717e923f},{1748,0xad1ac9f0998a4},{1748,0xb766ac9e286e0},{1748,0xb9445072f4374},{1748,0xbbd3ecf6dd68e},{1748,0xde2696f4a4c71},{1748,0xe027cc2676175},{1748,0xe374080b3b669},{1748,0xe72fd68ed826d},{1748,0xf808188b396f8},{1748,0xf834164b46074},{1748,0xfba56e690097c},
{1749,0x28edda0f3ccc},{1749,0x47475d761e05},{1749,0x5fe63c38fc0f},{1749,0xbc60e6896717},{1749,0x1502fc46a0b77},{1749,0x1ba426758f0ea},{1749,0x20fa06c2f25d5},{1749,0x221563a9b7322},{1749,0x2bf2962a8339c},{1749,0x2c29f8fb7406a},{1749,0x3d234e053f71f},{1749,0x3f652fe4f0ede},{1749,0x40db54015b1be},{1749,0x498d01769e528},{1749,0x4a5dbf4c81ca5},{1749,0x4b5c3a614293c},{1749,0x565027072f55e},{1749,0x5c19aacba8a29},{1749,0x5dd05906ef7e7},{1749,0x6329bfe32726c},{1749,0x6a9abc9424feb},{1749,0x72127d5c1a440},{1749,0x724e20feebfbd},{1749,0x75d226331d039},{1749,0x7c026b84ba3a0},{1749,0x9beb2c3dcbd17},{1749,0x9c87b52650919},{1749,0xa16b17bfdb63e},{1749,0xa3bdac4f00f32},{1749,0xad1ac9f0998a4},{1749,0xb766ac9e286e0},{1749,0xb9445072f4374},{1749,0xd03a1380e62f1},{1749,0xd5f2babada406},{1749,0xe027cc2676175},{1749,0xe374080b3b669},{1749,0xeb905972f5f43},{1749,0xf8871f11190e3},{1749,0xfba56e690097c},
{1750,0x47475d761e05},{1750,0x5fe63c38fc0f},{1750,0xbc60e6896717},{1750,0x12a02be2d944c},{1750,0x1502fc46a0b77},{1750,0x20cbe1ee50a92},{1750,0x221563a9b7322},{1750,0x2bf2962a8339c},{1750,0x38ed79457b100},{1750,0x3d234e053f71f},{1750,0x498d01769e528},{1750,0x4a5dbf4c81ca5},{1750,0x5c19aacba8a29},{1750,0x60d9b28a1e29b},{1750,0x6329bfe32726c},{1750,0x7c3b8228ee0f0},{1750,0x8079d70a63604},{1750,0x8edd69095be4f},{1750,0x9beb2c3dcbd17},{1750,0xa16b17bfdb63e},{1750,0xae80fe60fa953},{1750,0xb766ac9e286e0},{1750,0xb9445072f4374},{1750,0xccb998258a69b},{1750,0xcecaf496e77b6},{1750,0xd5f2babada406},{1750,0xd8bc401943c31},{1750,0xe2438f4a26f69},{1750,0xe374080b3b669},{1750,0xec917f97d4f7e},{1750,0xee8e4f6839d47},{1750,0xf8871f11190e3},{1750,0xfba56e690097c},{1750,0xfee8df361c92e},
{1751,0x47475d761e05},{1751,0x5fe63c38fc0f},{1751,0xbc60e6896717},{1751,0xe323ffd5a47a},{1751,0x12a02be2d944c},{1751,0x1502fc46a0b77},{1751,0x1904b88c69789},{1751,0x20cbe1ee50a92},{1751,0x29c542774d99f},{1751,0x2e1696acbbcba},{1751,0x37148ece45774},{1751,0x37ee8272efbf2},{1751,0x498d01769e528},{1751,0x5a77f2651aa50},{1751,0x5c19aacba8a29},{1751,0x60d9b28a1e29b},{1751,0x6329bfe32726c},{1751,0x69dea1224fbd5},{1751,0x6c3fd347106d9},{1751,0x761c975a2c5e1},{1751,0x7c3b8228ee0f0},{1751,0x8edd69095be4f},{1751,0x918cffb2e2c6b},{1751,0x98fa5a3d07511},{1751,0x9c8e3d4f00b39},{1751,0xacb068cd9b9bf},{1751,0xae80fe60fa953},{1751,0xc58b024745330},{1751,0xcecaf496e77b6},{1751,0xd5f2babada406},{1751,0xd8bc401943c31},{1751,0xe374080b3b669},{1751,0xfba56e690097c},
{1752,0x47475d761e05},{1752,0x5fe63c38fc0f},{1752,0xbc60e6896717},{1752,0xff40d6f1bbf0},{1752,0x12a02be2d944c},{1752,0x1502fc46a0b77},{1752,0x1904b88c69789},{1752,0x20cbe1ee50a92},{1752,0x29c542774d99f},{1752,0x2b8f34004a4b3},{1752,0x37148ece45774},{1752,0x3aee57685f709},{1752,0x49b2b5d54ada8},{1752,0x6329bfe32726c},{1752,0x67a67027a59f3},{1752,0x69dea1224fbd5},{1752,0x6a9abc9424feb},{1752,0x7321d690e4362},{1752,0x761c975a2c5e1},{1752,0x7c3b8228ee0f0},{1752,0x86f09e96e4ffc},{1752,0x8873541ad8edd},{1752,0x8dc48bc8ce82b},{1752,0x918cffb2e2c6b},{1752,0x98fa5a3d07511},{1752,0x9bf041d445e72},{1752,0xacb068cd9b9bf},{1752,0xaff828d4e1574},{1752,0xb3e2a769f7664},{1752,0xb5249fe61344e},{1752,0xbbe53b6439003},{1752,0xc58b024745330},{1752,0xcecaf496e77b6},{1752,0xd5f2babada406},{1752,0xe374080b3b669},{1752,0xfabd35a34c5c4},{1752,0xfba56e690097c},
{1753,0x20d4eb5c15ae},{1753,0x83f7bfc99ae1},{1753,0xbc60e6896717},{1753,0xff40d6f1bbf0},{1753,0x10b470722469b},{1753,0x12a02be2d944c},{1753,0x1502fc46a0b77},{1753,0x1904b88c69789},{1753,0x20cbe1ee50a92},{1753,0x27f8a9d780140},{1753,0x295c5aa1ea42f},{1753,0x2b8f34004a4b3},{1753,0x364b844ce7150},{1753,0x508a17204f533},{1753,0x574836db8f95f},{1753,0x6244c71ea8ce2},{1753,0x6329bfe32726c},{1753,0x69dea1224fbd5},{1753,0x7c3b8228ee0f0},{1753,0x8dc48bc8ce82b},{1753,0x918cffb2e2c6b},{1753,0x97ee1426a99e8},{1753,0x9bf041d445e72},{1753,0x9c7cb5b64d6ba},{1753,0x9ef3e6bb1467c},{1753,0xacb068cd9b9bf},{1753,0xb5249fe61344e},{1753,0xb8e0bd4644fdf},{1753,0xc0b9162a87619},{1753,0xc58b024745330},{1753,0xce6351f6dfe7d},{1753,0xcf30c92a5165d},{1753,0xd49f1a022378c},{1753,0xd5f2babada406},{1753,0xe0984cccfc385},{1753,0xf294c34bb2de3},{1753,0xfabd35a34c5c4},{1753,0xfba56e690097c},{1753,0xfd73c8ccd4e0b},
{1754,0x20d4eb5c15ae},{1754,0xff40d6f1bbf0},{1754,0x12a02be2d944c},{1754,0x1502fc46a0b77},{1754,0x1904b88c69789},{1754,0x1adc84fe5a7cb},{1754,0x20cbe1ee50a92},{1754,0x295c5aa1ea42f},{1754,0x2a13b25afc363},{1754,0x32b6fa243d103},{1754,0x34f4315f346d5},{1754,0x364b844ce7150},{1754,0x4de404f93ecd2},{1754,0x53f110cae2aec},{1754,0x574836db8f95f},{1754,0x5a38083637b08},{1754,0x5d74ad2a6684d},{1754,0x6244c71ea8ce2},{1754,0x6cdee75b786d1},{1754,0x799c3c57eabe8},{1754,0x7c3b8228ee0f0},{1754,0x8dc48bc8ce82b},{1754,0x918cffb2e2c6b},{1754,0x9815617888f87},{1754,0x9bf041d445e72},{1754,0x9c7cb5b64d6ba},{1754,0xacb068cd9b9bf},{1754,0xb5249fe61344e},{1754,0xc440e0b60d6f8},{1754,0xc58b024745330},{1754,0xce6351f6dfe7d},{1754,0xcf30c92a5165d},{1754,0xcf3d70f926a7b},{1754,0xd5f2babada406},{1754,0xe93cf26e8f86c},{1754,0xf294c34bb2de3},{1754,0xf9bda4c3db4a7},{1754,0xfabd35a34c5c4},{1754,0xfb3894693a098},{1754,0xfd73c8ccd4e0b},
{1755,0x106da8a23a9fe},{1755,0x1502fc46a0b77},{1755,0x1904b88c69789},{1755,0x1adc84fe5a7cb},{1755,0x20cbe1ee50a92},{1755,0x24824be166af8},{1755,0x295c5aa1ea42f},{1755,0x2c01b06289778},{1755,0x31f28f1cff36e},{1755,0x35b34e0f54e7f},{1755,0x3d3e895a36ed9},{1755,0x436883e62863e},{1755,0x46e9fd8f798cb},{1755,0x47c783c3e8d38},{1755,0x4de404f93ecd2},{1755,0x53f110cae2aec},{1755,0x574836db8f95f},{1755,0x5d74ad2a6684d},{1755,0x7c3b8228ee0f0},{1755,0x7d66527cb8797},{1755,0x8637a9424429b},{1755,0x8dc48bc8ce82b},{1755,0x914c383d498dc},{1755,0x918cffb2e2c6b},{1755,0x9815617888f87},{1755,0xb3e2a769f7664},{1755,0xbce7527fde295},{1755,0xc5a5523b5f089},{1755,0xcc6ffd5c18742},{1755,0xce6351f6dfe7d},{1755,0xcf30c92a5165d},{1755,0xcf3d70f926a7b},{1755,0xe061cb583f9e4},{1755,0xea5efc5736530},
{1756,0x5bbed60117},{1756,0x40e2cd8a5bb7},{1756,0xa8a75e632f36},{1756,0xf50315dac220},{1756,0x106da8a23a9fe},{1756,0x1502fc46a0b77},{1756,0x1adc84fe5a7cb},{1756,0x1cb4539b4b26d},{1756,0x24cf84d5e5568},{1756,0x2847e986d7b25},{1756,0x295c5aa1ea42f},{1756,0x3d3e895a36ed9},{1756,0x42f1cff3f0f2d},{1756,0x436883e62863e},{1756,0x46e9fd8f798cb},{1756,0x47c783c3e8d38},{1756,0x53f110cae2aec},{1756,0x574836db8f95f},{1756,0x5d74ad2a6684d},{1756,0x709453668e582},{1756,0x7780d66ea4a5c},{1756,0x7e568aac6a313},{1756,0x8637a9424429b},{1756,0x9815617888f87},{1756,0xaab439364ac7c},{1756,0xbf966f8a8398c},{1756,0xc5a5523b5f089},{1756,0xc8586f0912f1d},{1756,0xce6351f6dfe7d},{1756,0xcf30c92a5165d},{1756,0xcf3d70f926a7b},{1756,0xd8ebad010da73},{1756,0xe061cb583f9e4},{1756,0xedcd2fe0bcd3e},
{1757,0x5bbed60117},{1757,0xa8a75e632f36},{1757,0x106da8a23a9fe},{1757,0x1cb4539b4b26d},{1757,0x2192374299178},{1757,0x24e37041562b7},{1757,0x26f97ce62daba},{1757,0x2847e986d7b25},{1757,0x295c5aa1ea42f},{1757,0x3d3e895a36ed9},{1757,0x42f1cff3f0f2d},{1757,0x431eb297d21d9},{1757,0x436883e62863e},{1757,0x5085837f69b2c},{1757,0x53f110cae2aec},{1757,0x574836db8f95f},{1757,0x5b5fc52e95184},{1757,0x5d74ad2a6684d},{1757,0x61bb194e3d8ba},{1757,0x76f754a3d72f5},{1757,0x8637a9424429b},{1757,0x8fd052f25143e},{1757,0x91dc1a1bd4050},{1757,0x9815617888f87},{1757,0xaab439364ac7c},{1757,0xabc28a76c3a47},{1757,0xc1736d18ff3be},{1757,0xc5a5523b5f089},{1757,0xc5f5ff702e4aa},{1757,0xc8586f0912f1d},{1757,0xce6351f6dfe7d},{1757,0xcf30c92a5165d},{1757,0xcf3d70f926a7b},{1757,0xdd22ee80c7000},{1757,0xdf3b9612c0f95},{1757,0xe1958274c1224},{1757,0xe7177d9c7e391},{1757,0xedcd2fe0bcd3e},{1757,0xf3ad591e5803e},{1757,0xfed4c3f651de9},
{1758,0xe8972b2879a0},{1758,0x106da8a23a9fe},{1758,0x18c1f966304f8},{1758,0x1aa88c71c865b},{1758,0x1b48e353bce6f},{1758,0x2192374299178},{1758,0x39cbb442b0e35},{1758,0x3aaa842aa784a},{1758,0x42f1cff3f0f2d},{1758,0x436883e62863e},{1758,0x53f110cae2aec},{1758,0x67299b9bd17bd},{1758,0x68f08add9cede},{1758,0x6fd58ccdb0a3d},{1758,0x76f754a3d72f5},{1758,0x8637a9424429b},{1758,0x91dc1a1bd4050},{1758,0x9815617888f87},{1758,0x9ac3499fd1e88},{1758,0xa7f180d2726b4},{1758,0xa8ed54fd9b5a7},{1758,0xaab439364ac7c},{1758,0xc5a5523b5f089},{1758,0xc8586f0912f1d},{1758,0xce6351f6dfe7d},{1758,0xcf30c92a5165d},{1758,0xd8f19f5cd30d6},{1758,0xdd0774d94e138},{1758,0xdd22ee80c7000},{1758,0xe36ce536b4ebf},{1758,0xe7177d9c7e391},{1758,0xeb9fd02a4c1e1},{1758,0xedcd2fe0bcd3e},{1758,0xef4a548fed3a7},{1758,0xfed4c3f651de9},
{1759,0xe8972b2879a0},{1759,0x106da8a23a9fe},{1759,0x11a637a631a17},{1759,0x18c1f966304f8},{1759,0x1b48e353bce6f},{1759,0x2192374299178},{1759,0x3aaa842aa784a},{1759,0x3b0428d02ebef},{1759,0x436883e62863e},{1759,0x459803d5089bb},{1759,0x53f110cae2aec},{1759,0x60520c0eae51d},{1759,0x621b1c28ac20b},{1759,0x68f08add9cede},{1759,0x6942432dcb752},{1759,0x71807dbd6dabc},{1759,0x775a2d355a4ba},{1759,0x8637a9424429b},{1759,0x87afb391aaf5b},{1759,0x91dc1a1bd4050},{1759,0x9815617888f87},{1759,0x9c16fdeb61cad},{1759,0xa48a3eaa59517},{1759,0xa7f180d2726b4},{1759,0xa8ed54fd9b5a7},{1759,0xaab439364ac7c},{1759,0xc375d24c7ed0c},{1759,0xc3afdb043b197},{1759,0xc8586f0912f1d},{1759,0xce765982f12ed},{1759,0xcf30c92a5165d},{1759,0xd8f19f5cd30d6},{1759,0xdd0774d94e138},{1759,0xe43e514ba215f},{1759,0xeb9fd02a4c1e1},{1759,0xedcd2fe0bcd3e},{1759,0xef90f5963684b},{1759,0xefbf8dd28a943},{1759,0xf499e026c418d},
{1760,0x1325cc41cf5a},{1760,0x9b057fc0c48b},{1760,0xf98302a5c1bf},{1760,0x18c1f966304f8},{1760,0x1fddbb262efd9},{1760,0x2192374299178},{1760,0x3aaa842aa784a},{1760,0x3b0428d02ebef},{1760,0x436883e62863e},{1760,0x459803d5089bb},{1760,0x544bb77a07b80},{1760,0x65a59f001e7d3},{1760,0x68f08add9cede},{1760,0x6c7ae7ecd6d77},{1760,0x775a2d355a4ba},{1760,0x87afb391aaf5b},{1760,0x9815617888f87},{1760,0xa119f1454f414},{1760,0xa2fbffdb7580b},{1760,0xa48a3eaa59517},{1760,0xa7f180d2726b4},{1760,0xaab439364ac7c},{1760,0xad9ad2f7bca2a},{1760,0xade29e3e6208f},{1760,0xb237b67a3a5e5},{1760,0xc375d24c7ed0c},{1760,0xc815076a52b7c},{1760,0xc8586f0912f1d},{1760,0xcc56716812f75},{1760,0xce765982f12ed},{1760,0xcf30c92a5165d},{1760,0xde792797eb855},{1760,0xef90f5963684b},{1760,0xefbf8dd28a943},{1760,0xf3c467aee594d},
{1761,0x1325cc41cf5a},{1761,0xf98302a5c1bf},{1761,0x1fddbb262efd9},{1761,0x2192374299178},{1761,0x316a951647a90},{1761,0x350132055d4d4},{1761,0x3aaa842aa784a},{1761,0x436883e62863e},{1761,0x4496bce738e99},{1761,0x65673314be89a},{1761,0x65a59f001e7d3},{1761,0x68f08add9cede},{1761,0x6bf84f99b786e},{1761,0x6c7ae7ecd6d77},{1761,0x852e1a398d5b3},{1761,0x87afb391aaf5b},{1761,0x9764483f8a29e},{1761,0x9815617888f87},{1761,0xa119f1454f414},{1761,0xa2fbffdb7580b},{1761,0xa48a3eaa59517},{1761,0xa7f180d2726b4},{1761,0xab95371f311fd},{1761,0xbd4812c1a6a81},{1761,0xc375d24c7ed0c},{1761,0xc815076a52b7c},{1761,0xc8586f0912f1d},{1761,0xcb84af63d067d},{1761,0xcbe2b1f7aa1ad},{1761,0xcf30c92a5165d},{1761,0xd368cb507f3b9},{1761,0xd97d17ca1429f},{1761,0xdfd0410907f40},{1761,0xf3c467aee594d},
{1762,0x1325cc41cf5a},{1762,0x994551e81188},{1762,0x1dee7077623d2},{1762,0x316a951647a90},{1762,0x319ebd787f7d2},{1762,0x42db264827b08},{1762,0x436883e62863e},{1762,0x4496bce738e99},{1762,0x53f60daeab3f7},{1762,0x621b1c28ac20b},{1762,0x6c7ae7ecd6d77},{1762,0x7ca0a6c92166b},{1762,0x85f6455c89375},{1762,0x89e3c308c527b},{1762,0x9d88b0a9ff3c9},{1762,0xa2fbffdb7580b},{1762,0xa48a3eaa59517},{1762,0xa9c932c4aa884},{1762,0xab95371f311fd},{1762,0xb517c872dc2d0},{1762,0xbaa1e332d728e},{1762,0xbd05c85111275},{1762,0xbd4812c1a6a81},{1762,0xc2d040e55cccf},{1762,0xc8586f0912f1d},{1762,0xcde09d2cc916b},{1762,0xd97d17ca1429f},{1762,0xec252dcfa4efb},{1762,0xee2b32749686e},{1762,0xf499e026c418d},{1762,0xfb058cab59ffe},
{1763,0x1325cc41cf5a},{1763,0xf90669dbf996},{1763,0x1fb606e10bda9},{1763,0x21f039d672ca8},{1763,0x2f4377a73cdf6},{1763,0x316a951647a90},{1763,0x3a22ddaf37acc},{1763,0x431f234b83777},{1763,0x43abb67598aa1},{1763,0x4496bce738e99},{1763,0x53f60daeab3f7},{1763,0x65adb503a1cfe},{1763,0x6d9e677a43770},{1763,0x7ca0a6c92166b},{1763,0x87bb73e4262c1},{1763,0xa0425842ba5ea},{1763,0xa19f2c0f17efb},{1763,0xa2fbffdb7580b},{1763,0xa9c932c4aa884},{1763,0xab95371f311fd},{1763,0xb8af4ae944d5f},{1763,0xbaa1e332d728e},{1763,0xbd05c85111275},{1763,0xbd4812c1a6a81},{1763,0xbe3c8bd2c4d55},{1763,0xc2d040e55cccf},{1763,0xc59457f737df6},{1763,0xc8586f0912f1d},{1763,0xcb1c861aee044},{1763,0xd8f0f97435607},{1763,0xe169a838fcfa4},{1763,0xf499e026c418d},
{1764,0x1325cc41cf5a},{1764,0x8d5660a67e37},{1764,0x15f5d6c5f0c4c},{1764,0x1fb606e10bda9},{1764,0x21f039d672ca8},{1764,0x316a951647a90},{1764,0x3955fdc6b2a1a},{1764,0x3a22ddaf37acc},{1764,0x51bd45b8a294c},{1764,0x578d902513e86},{1764,0x673d3ff7ff08a},{1764,0x6d9e677a43770},{1764,0x783ccdeb36e2c},{1764,0x87bb73e4262c1},{1764,0x955bb9dfcdd66},{1764,0xa0425842ba5ea},{1764,0xa2fbffdb7580b},{1764,0xa9c932c4aa884},{1764,0xab95371f311fd},{1764,0xae9cc4c9cf13b},{1764,0xaf739f685f4be},{1764,0xb8a9a40499257},{1764,0xb8af4ae944d5f},{1764,0xbd4812c1a6a81},{1764,0xc4324c6e4a562},{1764,0xc59457f737df6},{1764,0xc6f6638025689},{1764,0xc8586f0912f1d},{1764,0xcb1c861aee044},{1764,0xce8d032eba712},{1764,0xd26768ea1f0a9},{1764,0xd8f0f97435607},{1764,0xe169a838fcfa4},
{1765,0x108287947a80a},{1765,0x15f5d6c5f0c4c},{1765,0x1fb606e10bda9},{1765,0x2530f187c71d2},{1765,0x316a951647a90},{1765,0x344cbab6f7c08},{1765,0x3a22ddaf37acc},{1765,0x5b1c17845591b},{1765,0x5c78eb50b322c},{1765,0x673d3ff7ff08a},{1765,0x7ffbcc22810d1},{1765,0x879832ecb488f},{1765,0x87bb73e4262c1},{1765,0x996f588f0705d},{1765,0xa19f2c0f17efb},{1765,0xa2fbffdb7580b},{1765,0xa9c932c4aa884},{1765,0xb3a607d989f4d},{1765,0xb8a9a40499257},{1765,0xb8af4ae944d5f},{1765,0xbaa1e332d728e},{1765,0xbd4812c1a6a81},{1765,0xc161ec9d89293},{1765,0xc4324c6e4a562},{1765,0xca99a8f230285},{1765,0xcb1c861aee044},{1765,0xcbdcd1ce6c7fa},{1765,0xce8d032eba712},{1765,0xd206bfc791b25},{1765,0xd26768ea1f0a9},{1765,0xe6c56ccd7cbca},{1765,0xedf070d82e770},{1765,0xf1f61f99320e0},
{1766,0x108287947a80a},{1766,0x15f5d6c5f0c4c},{1766,0x1fb606e10bda9},{1766,0x316a951647a90},{1766,0x34ca7588f433f},{1766,0x36d15c3ed5311},{1766,0x3c50efd573adb},{1766,0x3e5f40d66d82c},{1766,0x424b2ccb284ad},{1766,0x516b2ae78ed51},{1766,0x5855649432833},{1766,0x7a7d49ed06699},{1766,0x879832ecb488f},{1766,0x87bb73e4262c1},{1766,0x999376f8cfc78},{1766,0xa19f2c0f17efb},{1766,0xa2fbffdb7580b},{1766,0xa9c932c4aa884},{1766,0xb1216651ac844},{1766,0xb67b91de5d248},{1766,0xb8a9a40499257},{1766,0xb8af4ae944d5f},{1766,0xbaa1e332d728e},{1766,0xc4324c6e4a562},{1766,0xca99a8f230285},{1766,0xcb1c861aee044},{1766,0xcbbf71003877b},{1766,0xcbdcd1ce6c7fa},{1766,0xe56899011f2b9},{1766,0xe6c56ccd7cbca},{1766,0xe774671028f84},{1766,0xeb0be98691a13},{1766,0xecfb579a393bf},{1766,0xedf070d82e770},{1766,0xf1f61f99320e0},{1766,0xfe5c7868ab5b1},
{1767,0x147b2758d0fc},{1767,0x108287947a80a},{1767,0x1ef1d3d0d4c2a},{1767,0x316a951647a90},{1767,0x31c8192f1a4ff},{1767,0x34ca7588f433f},{1767,0x3c50efd573adb},{1767,0x4a80f13aeb270},{1767,0x6d14119a1d8d7},{1767,0x6e2facb173802},{1767,0x70bbdf73ba4e0},{1767,0x8acebbaaec95a},{1767,0x999376f8cfc78},{1767,0xa2fbffdb7580b},{1767,0xac182341f1a32},{1767,0xb1216651ac844},{1767,0xb67b91de5d248},{1767,0xbad302498b83f},{1767,0xc4324c6e4a562},{1767,0xcbdcd1ce6c7fa},{1767,0xd64c0166049b7},{1767,0xe56899011f2b9},{1767,0xe861f0a96532d},{1767,0xeb0be98691a13},{1767,0xef8bbc1f06e62},{1767,0xf1f61f99320e0},{1767,0xf904104267e24},{1767,0xfd95dd31a816b},
{1768,0x108287947a80a},{1768,0x14a52dffc6799},{1768,0x1b0cb0a36e4ed},{1768,0x1ef1d3d0d4c2a},{1768,0x27edd0dbb8c08},{1768,0x2a0e4ec72d2c9},{1768,0x316a951647a90},{1768,0x31c8192f1a4ff},{1768,0x3888f725232b4},{1768,0x3c50efd573adb},{1768,0x3e245b4c8aa56},{1768,0x3f591a22f7006},{1768,0x4a80f13aeb270},{1768,0x4ac4fd483a5c3},{1768,0x73f3137a5266c},{1768,0x753bb20c2f92f},{1768,0x98a32f0433f1d},{1768,0x999376f8cfc78},{1768,0x9ef7c4ffa9b65},{1768,0xac182341f1a32},{1768,0xb3972624dfeb7},{1768,0xb67b91de5d248},{1768,0xc4324c6e4a562},{1768,0xcbdcd1ce6c7fa},{1768,0xd4cd72b7b4c0e},{1768,0xd64c0166049b7},{1768,0xd7bfd11062836},{1768,0xe56899011f2b9},{1768,0xe861f0a96532d},{1768,0xef8bbc1f06e62},{1768,0xf1f61f99320e0},{1768,0xf35f34890846f},{1768,0xf904104267e24},
{1769,0x1b0cb0a36e4ed},{1769,0x1ef1d3d0d4c2a},{1769,0x27edd0dbb8c08},{1769,0x2baed03c70fe4},{1769,0x2e3096b8b1a70},{1769,0x31c8192f1a4ff},{1769,0x355f9ba582f8e},{1769,0x3a491778c5be0},{1769,0x3d734dbe764f5},{1769,0x3e245b4c8aa56},{1769,0x4529a0ee3d114},{1769,0x4ac4fd483a5c3},{1769,0x5381e59da4f17},{1769,0x59ce797fb817f},{1769,0x645ecbd4ea423},{1769,0x7192101f8f8c6},{1769,0x73f3137a5266c},{1769,0x753bb20c2f92f},{1769,0x76100ea5018b5},{1769,0x9414d508fe3d7},{1769,0x953752ac57c5a},{1769,0x980d3d72de59b},{1769,0x999376f8cfc78},{1769,0x9ef7c4ffa9b65},{1769,0xac182341f1a32},{1769,0xb67b91de5d248},{1769,0xc4324c6e4a562},{1769,0xcbdcd1ce6c7fa},{1769,0xd7bfd11062836},{1769,0xe56899011f2b9},{1769,0xe861f0a96532d},{1769,0xef8bbc1f06e62},{1769,0xf904104267e24},{1769,0xfcd3e2485d6b7},
{1770,0x102655e4424a2},{1770,0x1ef1d3d0d4c2a},{1770,0x1f04f952f7848},{1770,0x27edd0dbb8c08},{1770,0x2e3096b8b1a70},{1770,0x31c8192f1a4ff},{1770,0x40262308bcf3b},{1770,0x4841f1f832278},{1770,0x4efeefc05d25f},{1770,0x56c4636a35404},{1770,0x59ce797fb817f},{1770,0x645ecbd4ea423},{1770,0x7192101f8f8c6},{1770,0x7270a8885c584},{1770,0x76100ea5018b5},{1770,0x7c631f3fb0e72},{1770,0x81b750a669c0d},{1770,0x837a780d3d53f},{1770,0x948447921e4fa},{1770,0x980d3d72de59b},{1770,0x999376f8cfc78},{1770,0x9ae22e46ecf14},{1770,0x9d212d89a5f0c},{1770,0x9f26bd2b646bf},{1770,0xac182341f1a32},{1770,0xb67b91de5d248},{1770,0xc3ba04c903423},{1770,0xc4324c6e4a562},{1770,0xc71db1775fd3f},{1770,0xc9c645290d4db},{1770,0xd7bfd11062836},{1770,0xe56899011f2b9},{1770,0xe861f0a96532d},{1770,0xeb436b52eebb9},{1770,0xed826a95a7bb0},{1770,0xef8bbc1f06e62},{1770,0xf11e3da4be4b8},{1770,0xf904104267e24},
{1771,0x102655e4424a2},{1771,0x1c382c3819a09},{1771,0x1cb2d48e1bc33},{1771,0x27edd0dbb8c08},{1771,0x2a2baf9561348},{1771,0x2e3096b8b1a70},{1771,0x2e94aa4fc114f},{1771,0x31c8192f1a4ff},{1771,0x4841f1f832278},{1771,0x521baf58c8406},{1771,0x59ce797fb817f},{1771,0x5cea010be0d9f},{1771,0x6350f3e14fb75},{1771,0x645ecbd4ea423},{1771,0x646fa548f938b},{1771,0x7192101f8f8c6},{1771,0x7270a8885c584},{1771,0x7dc72f2c13ced},{1771,0x7f5cbd2dc61ef},{1771,0x837a780d3d53f},{1771,0x8618984374e3b},{1771,0x863a1f333e3ed},{1771,0x8c8607403b860},{1771,0x980d3d72de59b},{1771,0x999376f8cfc78},{1771,0x9ae22e46ecf14},{1771,0x9d212d89a5f0c},{1771,0xaf8a3d5a9ba3b},{1771,0xb50ca0a7e779d},{1771,0xb67b91de5d248},{1771,0xc4324c6e4a562},{1771,0xc9c645290d4db},{1771,0xd2d6bd9f9eed2},{1771,0xd48dcac62b096},{1771,0xd7bfd11062836},{1771,0xd9b2f45d800ba},{1771,0xe861f0a96532d},{1771,0xeb436b52eebb9},{1771,0xef8bbc1f06e62},{1771,0xf904104267e24},
{1772,0x35adb1fca11f},{1772,0xbc88e309d908},{1772,0x1c382c3819a09},{1772,0x27edd0dbb8c08},{1772,0x2a2baf9561348},{1772,0x2e3096b8b1a70},{1772,0x2e94aa4fc114f},{1772,0x31c8192f1a4ff},{1772,0x521baf58c8406},{1772,0x57c7a42d970f6},{1772,0x59ce797fb817f},{1772,0x5a39ec0dfa234},{1772,0x5bf058b94799d},{1772,0x5cea010be0d9f},{1772,0x6350f3e14fb75},{1772,0x645ecbd4ea423},{1772,0x7f5cbd2dc61ef},{1772,0x983babe3daa5f},{1772,0xa79cee6fa7ea2},{1772,0xb04217dfa61df},{1772,0xb67b91de5d248},{1772,0xb7d0b8d902010},{1772,0xb8f75020ad58d},{1772,0xc4324c6e4a562},{1772,0xc9c645290d4db},{1772,0xceb748a8a6565},{1772,0xd48dcac62b096},{1772,0xd9b2f45d800ba},{1772,0xdb8c9ca905c49},{1772,0xdc593801368c8},{1772,0xe861f0a96532d},{1772,0xeb436b52eebb9},{1772,0xef8bbc1f06e62},
{1773,0x35adb1fca11f},{1773,0xbc88e309d908},{1773,0xec7c342980f2},{1773,0x199dbf6cf8a42},{1773,0x1c382c3819a09},{1773,0x1cacb6e8f3462},{1773,0x27edd0dbb8c08},{1773,0x2945db5aac1be},{1773,0x2a2baf9561348},{1773,0x2e94aa4fc114f},{1773,0x31c8192f1a4ff},{1773,0x59ce797fb817f},{1773,0x5a39ec0dfa234},{1773,0x5bf058b94799d},{1773,0x5cea010be0d9f},{1773,0x5e04fb48c9819},{1773,0x6350f3e14fb75},{1773,0x680ca8a5aae45},{1773,0x84f63418e520b},{1773,0x850848afaf1af},{1773,0x908e26bd15981},{1773,0x9ffe20f8ff7ea},{1773,0xa79cee6fa7ea2},{1773,0xb67b91de5d248},{1773,0xb7d0b8d902010},{1773,0xc4324c6e4a562},{1773,0xc8a924d89f0ff},{1773,0xc9c645290d4db},{1773,0xceb748a8a6565},{1773,0xd21d5db9ce0a3},{1773,0xd9b2f45d800ba},{1773,0xdb8c9ca905c49},{1773,0xe861f0a96532d},{1773,0xeabcc3e261075},{1773,0xeb436b52eebb9},{1773,0xeb5482913591f},{1773,0xf6b75cc9fdddb},{1773,0xf7d6721f7f144},
{1774,0x234bc7607b67},{1774,0x35adb1fca11f},{1774,0xbc88e309d908},{1774,0xec7c342980f2},{1774,0x18f7c2b7c5937},{1774,0x199dbf6cf8a42},{1774,0x1c382c3819a09},{1774,0x1f412a98ab601},{1774,0x2e94aa4fc114f},{1774,0x31c8192f1a4ff},{1774,0x443191e7bc967},{1774,0x51647836782e2},{1774,0x59ce797fb817f},{1774,0x5a39ec0dfa234},{1774,0x5cea010be0d9f},{1774,0x5e04fb48c9819},{1774,0x6350f3e14fb75},{1774,0x680ca8a5aae45},{1774,0x84f63418e520b},{1774,0x861c3983fd162},{1774,0x908e26bd15981},{1774,0x9b2cb8088b88a},{1774,0xa69585cedd189},{1774,0xa79cee6fa7ea2},{1774,0xa8374ca7880b9},{1774,0xad042855a6ca8},{1774,0xb89240e503427},{1774,0xc12c430708481},{1774,0xc4324c6e4a562},{1774,0xc9c645290d4db},{1774,0xcdce4e6ff4123},{1774,0xd7f8300b9d9a2},{1774,0xd9b2f45d800ba},{1774,0xdb8c9ca905c49},{1774,0xdeb064865e62e},{1774,0xdec1f1a91da02},{1774,0xe1f746a9357bb},{1774,0xe861f0a96532d},{1774,0xeb436b52eebb9},{1774,0xeb5482913591f},{1774,0xf18ceeb936e7e},{1774,0xf7d6721f7f144},{1774,0xfbc6936742030},{1774,0xfe23da012cb0e},
{1775,0x234bc7607b67},{1775,0xbc88e309d908},{1775,0x18f7c2b7c5937},{1775,0x199dbf6cf8a42},{1775,0x1b5aca0f2867d},{1775,0x1c382c3819a09},{1775,0x1f412a98ab601},{1775,0x23c63683c3543},{1775,0x2e94aa4fc114f},{1775,0x33fbe435bff55},{1775,0x39631e1bbed5b},{1775,0x3ea312f0ba70d},{1775,0x443191e7bc967},{1775,0x51647836782e2},{1775,0x587f27bc17b1c},{1775,0x5a39ec0dfa234},{1775,0x6124fd5583e94},{1775,0x6350f3e14fb75},{1775,0x680ca8a5aae45},{1775,0x7a182e21db9d6},{1775,0x84f63418e520b},{1775,0xa69585cedd189},{1775,0xad042855a6ca8},{1775,0xb04217dfa61df},{1775,0xb8d96c408abb0},{1775,0xb8f75020ad58d},{1775,0xc12c430708481},{1775,0xc84c9ea8769f3},{1775,0xcdce4e6ff4123},{1775,0xd9b2f45d800ba},{1775,0xdafa496d1758f},{1775,0xdb8c9ca905c49},{1775,0xdec1f1a91da02},{1775,0xe1f746a9357bb},{1775,0xe861f0a96532d},{1775,0xeb436b52eebb9},{1775,0xf18ceeb936e7e},{1775,0xf7d6721f7f144},{1775,0xfbc6936742030},{1775,0xfe1ff585c7409},{1775,0xfe23da012cb0e},
{1776,0xbc88e309d908},{1776,0xe294eebc7d2b},{1776,0x186ed23be1d8e},{1776,0x199dbf6cf8a42},{1776,0x1b5aca0f2867d},{1776,0x1c382c3819a09},{1776,0x24de01d185d81},{1776,0x292d7069c2349},{1776,0x2e94aa4fc114f},{1776,0x2ef21ec4b2e87},{1776,0x31484742c0852},{1776,0x33fbe435bff55},{1776,0x39631e1bbed5b},{1776,0x3ea312f0ba70d},{1776,0x3eca5801bdb61},{1776,0x42a15e25d76e4},{1776,0x443191e7bc967},{1776,0x51647836782e2},{1776,0x6124fd5583e94},{1776,0x680ca8a5aae45},{1776,0x722eccda64e4f},{1776,0x739752315722d},{1776,0x79e0d5979f4f3},{1776,0x7a39d4e3b15a3},{1776,0x8a537311ce6a5},{1776,0x99190e0ccbdeb},{1776,0x9d6bf8d981fa7},{1776,0xad042855a6ca8},{1776,0xaff83ec2fe3cd},{1776,0xb04217dfa61df},{1776,0xb8d96c408abb0},{1776,0xb8f75020ad58d},{1776,0xbad3fad181fe2},{1776,0xc12c430708481},{1776,0xd20587fdc5666},{1776,0xd85747a8ede90},{1776,0xd866e12016368},{1776,0xd9b2f45d800ba},{1776,0xdafa496d1758f},{1776,0xdec1f1a91da02},{1776,0xe82a2f16b6863},{1776,0xe861f0a96532d},{1776,0xf18ceeb936e7e},{1776,0xf7d6721f7f144},{1776,0xfbc6936742030},{1776,0xfe23da012cb0e},
{1777,0xbc88e309d908},{1777,0xe294eebc7d2b},{1777,0x199dbf6cf8a42},{1777,0x292d7069c2349},{1777,0x2be10d5cc1a4c},{1777,0x2e94aa4fc114f},{1777,0x2ef21ec4b2e87},{1777,0x31484742c0852},{1777,0x33fbe435bff55},{1777,0x36af8128bf658},{1777,0x36ca98dab6aca},{1777,0x3708978fb5ba2},{1777,0x383868f08ab9b},{1777,0x3ae60753af6ca},{1777,0x3ea312f0ba70d},{1777,0x42a15e25d76e4},{1777,0x443191e7bc967},{1777,0x484311f102038},{1777,0x51647836782e2},{1777,0x5a71449836717},{1777,0x5aa89d2272bfa},{1777,0x5f35b365b6f85},{1777,0x693b95d6c1af9},{1777,0x6f2637cc33a7d},{1777,0x722eccda64e4f},{1777,0x79e0d5979f4f3},{1777,0x8a537311ce6a5},{1777,0x8c622954a0fec},{1777,0x99190e0ccbdeb},{1777,0x9d6bf8d981fa7},{1777,0xad042855a6ca8},{1777,0xb292207547056},{1777,0xb841f5a7ff556},{1777,0xb8d96c408abb0},{1777,0xc12c430708481},{1777,0xc57944180acae},{1777,0xd20587fdc5666},{1777,0xd85747a8ede90},{1777,0xd866e12016368},{1777,0xd9b2f45d800ba},{1777,0xdafc3ec3554c3},{1777,0xdec1f1a91da02},{1777,0xf18ceeb936e7e},{1777,0xf7d6721f7f144},{1777,0xfe23da012cb0e},
{1778,0xbc88e309d908},{1778,0xe294eebc7d2b},{1778,0x13b31d7786abe},{1778,0x1768b082a79be},{1778,0x182316ef9c261},{1778,0x1a0eb6d1be92b},{1778,0x1bab5faac503a},{1778,0x292d7069c2349},{1778,0x31484742c0852},{1778,0x33fbe435bff55},{1778,0x36af8128bf658},{1778,0x36ca98dab6aca},{1778,0x3708978fb5ba2},{1778,0x3ae60753af6ca},{1778,0x3ea312f0ba70d},{1778,0x42a15e25d76e4},{1778,0x443191e7bc967},{1778,0x51b3a2a6b9c76},{1778,0x57fb706028cb2},{1778,0x5aa89d2272bfa},{1778,0x685863f1f0972},{1778,0x68a0e924542db},{1778,0x6f2637cc33a7d},{1778,0x78ee49309bdc2},{1778,0x79e0d5979f4f3},{1778,0x904d2cccf7f64},{1778,0x953df661abbc1},{1778,0x9a77396df1aec},{1778,0xb841f5a7ff556},{1778,0xb8d96c408abb0},{1778,0xb8dba3db8f31b},{1778,0xc0a05e1c92d83},{1778,0xc4145e5df180e},{1778,0xc57944180acae},{1778,0xd89e39aa5284b},{1778,0xd9b2f45d800ba},{1778,0xe19336ed05e93},{1778,0xed71eff862554},{1778,0xf7d6721f7f144},
{1779,0xbc88e309d908},{1779,0xe294eebc7d2b},{1779,0x13b31d7786abe},{1779,0x182316ef9c261},{1779,0x292d7069c2349},{1779,0x31484742c0852},{1779,0x36af8128bf658},{1779,0x3ae60753af6ca},{1779,0x3ea312f0ba70d},{1779,0x5057922325e5b},{1779,0x51b3a2a6b9c76},{1779,0x54aff44b507ca},{1779,0x5655b255bca3e},{1779,0x57fb706028cb2},{1779,0x68a0e924542db},{1779,0x79e0d5979f4f3},{1779,0x7c9d3f147ff2e},{1779,0x904d2cccf7f64},{1779,0x953df661abbc1},{1779,0xa24fb383f572f},{1779,0xb4523a3af2efa},{1779,0xb8dba3db8f31b},{1779,0xbbcebd3b43b72},{1779,0xca995220e0a3c},{1779,0xde47bad82d9ab},{1779,0xe19336ed05e93},{1779,0xf7d6721f7f144},{1779,0xfcb9ac7268202},
{1780,0x230d4cb9243a},{1780,0xbc88e309d908},{1780,0xe294eebc7d2b},{1780,0x10495b7431cf1},{1780,0x182316ef9c261},{1780,0x1f765c51a2356},{1780,0x36af8128bf658},{1780,0x3ae60753af6ca},{1780,0x51b3a2a6b9c76},{1780,0x5655b255bca3e},{1780,0x57fb706028cb2},{1780,0x67c0ed5965318},{1780,0x68a0e924542db},{1780,0x79e0d5979f4f3},{1780,0x7df0ccb1d0947},{1780,0x904d2cccf7f64},{1780,0x9fad854c1fc73},{1780,0xa24fb383f572f},{1780,0xa8e2ec05da001},{1780,0xb507978671241},{1780,0xb8dba3db8f31b},{1780,0xc7e5b52de1339},{1780,0xca995220e0a3c},{1780,0xd42603cd92f40},{1780,0xdfed78e299c1f},{1780,0xe19336ed05e93},{1780,0xe924eee75fd27},{1780,0xf7d6721f7f144},
{1781,0xe294eebc7d2b},{1781,0x182316ef9c261},{1781,0x285ee642ce5b5},{1781,0x2f18bb6b4454a},{1781,0x3ae60753af6ca},{1781,0x493f00cc451cf},{1781,0x51b3a2a6b9c76},{1781,0x5655b255bca3e},{1781,0x57fb706028cb2},{1781,0x67c0ed5965318},{1781,0x68a0e924542db},{1781,0x6e1389af34372},{1781,0x79e0d5979f4f3},{1781,0x88c1ea951716e},{1781,0x904d2cccf7f64},{1781,0xa24fb383f572f},{1781,0xa8e2ec05da001},{1781,0xad0e57f32419b},{1781,0xb507978671241},{1781,0xb8dba3db8f31b},{1781,0xc7e5b52de1339},{1781,0xdf1a99dd63ae5},{1781,0xe19336ed05e93},{1781,0xe75f9a3816c34},{1781,0xe924eee75fd27},{1781,0xec09263713fc3},{1781,0xf20ca3553f71b},{1781,0xf7d6721f7f144},{1781,0xfa8a44df70e59},
{1782,0x1af664915a7d8},{1782,0x285ee642ce5b5},{1782,0x2c6936a965887},{1782,0x3ae60753af6ca},{1782,0x451f4fdb44650},{1782,0x487fe7b391448},{1782,0x4a453c62da53b},{1782,0x4d4e6743001cb},{1782,0x51b3a2a6b9c76},{1782,0x5655b255bca3e},{1782,0x57fb706028cb2},{1782,0x5a35368c6bdc6},{1782,0x67c0ed5965318},{1782,0x68a0e924542db},{1782,0x6b07820cd4832},{1782,0x75c75a281d47f},{1782,0x79e0d5979f4f3},{1782,0x88c1ea951716e},{1782,0x904d2cccf7f64},{1782,0x91c7d54a54745},{1782,0xa24fb383f572f},{1782,0xa8e2ec05da001},{1782,0xb8dba3db8f31b},{1782,0xc7e5b52de1339},{1782,0xc903ed769ce94},{1782,0xdd74dbd2f7871},{1782,0xde705ab96483a},{1782,0xdf1a99dd63ae5},{1782,0xe75f9a3816c34},{1782,0xe924eee75fd27},{1782,0xef93c65ee8f35},{1782,0xf20ca3553f71b},{1782,0xf7d6721f7f144},{1782,0xfa8d73fa16ab1},{1782,0xfe5432cd6f154},
{1783,0x2624eb87645a},{1783,0x11be86d09b99c},{1783,0x1af664915a7d8},{1783,0x277d2e51e28e7},{1783,0x285ee642ce5b5},{1783,0x2c6936a965887},{1783,0x2eb92e276a6ea},{1783,0x3ae60753af6ca},{1783,0x51b3a2a6b9c76},{1783,0x55ec42d3219a1},{1783,0x5655b255bca3e},{1783,0x57fb706028cb2},{1783,0x5e5d9259c7254},{1783,0x68a0e924542db},{1783,0x79e0d5979f4f3},{1783,0x812aff64b8a06},{1783,0x88c1ea951716e},{1783,0x8c0b86d6095d7},{1783,0x904d2cccf7f64},{1783,0x91c7d54a54745},{1783,0x9a703ca9dca77},{1783,0xa24fb383f572f},{1783,0xa8e2ec05da001},{1783,0xb8dba3db8f31b},{1783,0xc750afcd3385c},{1783,0xc7e5b52de1339},{1783,0xc903ed769ce94},{1783,0xced80cdfcd9df},{1783,0xdd74dbd2f7871},{1783,0xde705ab96483a},{1783,0xdf1a99dd63ae5},{1783,0xdf84095ffeb82},{1783,0xe75f9a3816c34},{1783,0xf7d6721f7f144},
{1784,0x1227f65336a39},{1784,0x1af664915a7d8},{1784,0x285ee642ce5b5},{1784,0x340a1c932c1ed},{1784,0x3ae60753af6ca},{1784,0x51b3a2a6b9c76},{1784,0x55ec42d3219a1},{1784,0x5655b255bca3e},{1784,0x57fb706028cb2},{1784,0x5f832d7a31327},{1784,0x79e0d5979f4f3},{1784,0x7adeea461569c},{1784,0x812aff64b8a06},{1784,0x88c1ea951716e},{1784,0x8c0b86d6095d7},{1784,0x904d2cccf7f64},{1784,0x972d9d2cff683},{1784,0x9a703ca9dca77},{1784,0xa502063a551dd},{1784,0xa8e2ec05da001},{1784,0xabceee4d15be0},{1784,0xb4454cce67b1d},{1784,0xb8dba3db8f31b},{1784,0xb9d9b88a054c5},{1784,0xbb3bc57ad3d5b},{1784,0xc7e5b52de1339},{1784,0xc903ed769ce94},{1784,0xced80cdfcd9df},{1784,0xd173bfaa1836f},{1784,0xdd74dbd2f7871},{1784,0xdf84095ffeb82},{1784,0xe75f9a3816c34},{1784,0xf7d6721f7f144},{1784,0xf8d486cdf52ed},{1784,0xffcedb4acb935},
{1785,0x5d807e05c941},{1785,0x7d457124123c},{1785,0x1018c8c62f728},{1785,0x1af664915a7d8},{1785,0x285ee642ce5b5},{1785,0x340a1c932c1ed},{1785,0x3ae60753af6ca},{1785,0x4daf8c9f04d5d},{1785,0x4e10b1fb098ef},{1785,0x57fb706028cb2},{1785,0x5f832d7a31327},{1785,0x6ff406c702454},{1785,0x706954b8ed64a},{1785,0x79e0d5979f4f3},{1785,0x812aff64b8a06},{1785,0x904d2cccf7f64},{1785,0x919c92018462d},{1785,0x972d9d2cff683},{1785,0x9e0e0d8d06da2},{1785,0xa502063a551dd},{1785,0xabddf0fad86ba},{1785,0xb4454cce67b1d},{1785,0xb8dba3db8f31b},{1785,0xbb3bc57ad3d5b},{1785,0xc903ed769ce94},{1785,0xdd74dbd2f7871},{1785,0xe75f9a3816c34},{1785,0xe7c0bf941b7c6},{1785,0xeef685687539c},{1785,0xf7d6721f7f144},{1785,0xf97f4aab2ae34},
{1786,0x5d807e05c941},{1786,0x7d457124123c},{1786,0x945fd409e3af},{1786,0x1a64ac875367d},{1786,0x2cc3fcdc7d759},{1786,0x340a1c932c1ed},{1786,0x3ae60753af6ca},{1786,0x42ae51327bdd3},{1786,0x4daf8c9f04d5d},{1786,0x4e10b1fb098ef},{1786,0x6ff406c702454},{1786,0x706954b8ed64a},{1786,0x715c79e65b321},{1786,0x79e0d5979f4f3},{1786,0x7a54d9052f549},{1786,0x7b586553984d5},{1786,0x812aff64b8a06},{1786,0x904d2cccf7f64},{1786,0x919c92018462d},{1786,0x9465179741e58},{1786,0x964c1fb09783e},{1786,0x972d9d2cff683},{1786,0x9e0e0d8d06da2},{1786,0xb4454cce67b1d},{1786,0xb8dba3db8f31b},{1786,0xbdd20b43ddb6b},{1786,0xc8cb584a9003d},{1786,0xc903ed769ce94},{1786,0xd6a2104d664f8},{1786,0xdae49cba75406},{1786,0xe75f9a3816c34},{1786,0xe7c0bf941b7c6},{1786,0xf2e00ab7308f4},{1786,0xf7d6721f7f144},
{1787,0x7d457124123c},{1787,0x945fd409e3af},{1787,0xc0385edfbe1d},{1787,0xe0f7b5320d97},{1787,0x12e3f64e0353c},{1787,0x1910a9c542dfe},{1787,0x1ea80ce9e52ce},{1787,0x21f2d5738cb56},{1787,0x2cc3fcdc7d759},{1787,0x340a1c932c1ed},{1787,0x3ae60753af6ca},{1787,0x3f4290c9fb1d1},{1787,0x42ae51327bdd3},{1787,0x4c2af72ef1f15},{1787,0x715c79e65b321},{1787,0x79e0d5979f4f3},{1787,0x7a54d9052f549},{1787,0x7f454498a102c},{1787,0x812aff64b8a06},{1787,0x894301404bdac},{1787,0x9465179741e58},{1787,0x964c1fb09783e},{1787,0x96e309056ffdf},{1787,0x972d9d2cff683},{1787,0xb4454cce67b1d},{1787,0xbbdc37fec6285},{1787,0xbdd20b43ddb6b},{1787,0xc14000a41f5d9},{1787,0xc8cb584a9003d},{1787,0xc9d7f1469ecb9},{1787,0xd2b6dc96d1f3c},{1787,0xd6a2104d664f8},{1787,0xdae49cba75406},{1787,0xdd8803ffc2b3f},{1787,0xf2e00ab7308f4},{1787,0xf8eda60ff6d49},
{1788,0x7d457124123c},{1788,0x87e7027a5d41},{1788,0xce7867acf240},{1788,0x13f7051541b3f},{1788,0x340a1c932c1ed},{1788,0x3ae60753af6ca},{1788,0x4fd606aa529e2},{1788,0x5198918d7da50},{1788,0x68e4882c8fb55},{1788,0x6ff406c702454},{1788,0x7f454498a102c},{1788,0x8bbe829b61b5a},{1788,0x967be1519179b},{1788,0x972d9d2cff683},{1788,0xbbdc37fec6285},{1788,0xcbf10878c2d69},{1788,0xd2b6dc96d1f3c},{1788,0xd62ba2ee73aa3},{1788,0xd6a2104d664f8},{1788,0xebd08c1cbdff5},
{1789,0x7d457124123c},{1789,0xce7867acf240},{1789,0x13f7051541b3f},{1789,0x1b9ddd9a06067},{1789,0x1dcefcc37de9f},{1789,0x2ba4f0f8a2f14},{1789,0x340a1c932c1ed},{1789,0x35570c7db92d2},{1789,0x3ae60753af6ca},{1789,0x41f585ee21fc9},{1789,0x49c96cd6d16cb},{1789,0x4ab8212d76331},{1789,0x4fd606aa529e2},{1789,0x5198918d7da50},{1789,0x587901ed8516f},{1789,0x6542fef25ecc4},{1789,0x6ff406c702454},{1789,0x721d8f20ca41d},{1789,0x7f454498a102c},{1789,0x8406f48a45907},{1789,0x8526006e2014c},{1789,0x8db9100f5bcc5},{1789,0x935b49b836b60},{1789,0x972d9d2cff683},{1789,0x9b3194cc96108},{1789,0x9df2879fe28de},{1789,0xc159ca9116fea},{1789,0xcbf10878c2d69},{1789,0xce4be2364521f},{1789,0xe61b13a0fe6b8},{1789,0xeeae23423a231},{1789,0xef584b69f7475},{1789,0xf8732b64eb4de},{1789,0xf9ef8951a31f3},{1789,0xfc1cf66c3e540},
{1790,0x1e076111730a},{1790,0x7d457124123c},{1790,0x1dcefcc37de9f},{1790,0x2442a7f13c6a5},{1790,0x2706d1df3d66c},{1790,0x2ba4f0f8a2f14},{1790,0x340a1c932c1ed},{1790,0x35570c7db92d2},{1790,0x3ae60753af6ca},{1790,0x41eb6abd9f10b},{1790,0x46a4d9d161a40},{1790,0x4fd606aa529e2},{1790,0x5198918d7da50},{1790,0x6542fef25ecc4},{1790,0x69070bb186ddb},{1790,0x7e1fe8f26335a},{1790,0x7f454498a102c},{1790,0x8406f48a45907},{1790,0x8526006e2014c},{1790,0x8db9100f5bcc5},{1790,0x972d9d2cff683},{1790,0xa42499079ef60},{1790,0xacb90d7da9da2},{1790,0xb3549749297fd},{1790,0xb3e41a77fc068},{1790,0xc159ca9116fea},{1790,0xce4be2364521f},{1790,0xd78fea595d11b},{1790,0xe61b13a0fe6b8},{1790,0xe848cccf84b76},{1790,0xeeae23423a231},{1790,0xf8732b64eb4de},{1790,0xfc1cf66c3e540},
{1791,0x1e076111730a},{1791,0x7d457124123c},{1791,0x1dcefcc37de9f},{1791,0x2222e740a2a45},{1791,0x259dc197601bc},{1791,0x2706d1df3d66c},{1791,0x340a1c932c1ed},{1791,0x486a48fac6c62},{1791,0x4fd606aa529e2},{1791,0x5021681982ed0},{1791,0x5198918d7da50},{1791,0x5a46b247f57ef},{1791,0x65d1961728588},{1791,0x6c8c83f54f3c7},{1791,0x7e1fe8f26335a},{1791,0x81dd109127525},{1791,0x943680bf98cd1},{1791,0x972d9d2cff683},{1791,0x9fbcd9c1bd1a2},{1791,0xa6dac3fcddfc8},{1791,0xac1e69cb437e5},{1791,0xadcb6f71d1511},{1791,0xc159ca9116fea},{1791,0xce4be2364521f},{1791,0xda1ceaa423c6f},{1791,0xe2f6bb6070e32},{1791,0xeeae23423a231},{1791,0xfc1cf66c3e540},
{1792,0x1e076111730a},{1792,0x5cb22e9e0c38},{1792,0x1dcefcc37de9f},{1792,0x2706d1df3d66c},{1792,0x340a1c932c1ed},{1792,0x4411829a93913},{1792,0x49c96cd6d16cb},{1792,0x4fd606aa529e2},{1792,0x5021681982ed0},{1792,0x55696be02eb1e},{1792,0x757bcb42a436a},{1792,0x760d6f7ce185f},{1792,0x7e1fe8f26335a},{1792,0x81dd109127525},{1792,0x8c4bcb1dc4261},{1792,0x972d9d2cff683},{1792,0x9c3bc80c85c7e},{1792,0x9ffa539cd68a9},{1792,0xa47a6ac517d10},{1792,0xa4e83c4d5d7cc},{1792,0xa6dac3fcddfc8},{1792,0xac1e69cb437e5},{1792,0xadbb345ce56e7},{1792,0xadcb6f71d1511},{1792,0xcbf10878c2d69},{1792,0xce4be2364521f},{1792,0xd17bdd348e284},{1792,0xeeae23423a231},{1792,0xf8321c2644638},{1792,0xfa6b1b92f6eff},{1792,0xfc1cf66c3e540},{1792,0xfe58586db6013},
{1793,0x1e076111730a},{1793,0x5cb22e9e0c38},{1793,0x10f73530e47fc},{1793,0x1bff038810f34},{1793,0x1dcefcc37de9f},{1793,0x2706d1df3d66c},{1793,0x2a178eec027a6},{1793,0x340a1c932c1ed},{1793,0x4411829a93913},{1793,0x49ee36202fb7f},{1793,0x4d64d4079150b},{1793,0x562760ebac7a6},{1793,0x757bcb42a436a},{1793,0x760d6f7ce185f},{1793,0x7d9821bcb150e},{1793,0x7e1fe8f26335a},{1793,0x81dd109127525},{1793,0x8c8556df135d4},{1793,0x9c351a7483d23},{1793,0x9c3bc80c85c7e},{1793,0x9ffa539cd68a9},{1793,0xa034b8ab87b1e},{1793,0xa22ca8d99353f},{1793,0xa4e83c4d5d7cc},{1793,0xa6dac3fcddfc8},{1793,0xac1e69cb437e5},{1793,0xadbb345ce56e7},{1793,0xadcb6f71d1511},{1793,0xbc07b922032a7},{1793,0xc25c857cfbc44},{1793,0xce4be2364521f},{1793,0xd22842f8c3f0e},{1793,0xd32735f6a8d81},{1793,0xe45b7ee49e08f},{1793,0xeeae23423a231},{1793,0xf94fcd684b712},{1793,0xfa6b1b92f6eff},
{1794,0x1e076111730a},{1794,0x5cb22e9e0c38},{1794,0xbf3a86e8a285},{1794,0x1bff038810f34},{1794,0x1dcefcc37de9f},{1794,0x340a1c932c1ed},{1794,0x3c4804f1a58f2},{1794,0x4411829a93913},{1794,0x4d64d4079150b},{1794,0x541bbbef32d80},{1794,0x5559af9b9f202},{1794,0x7d50e5d86225b},{1794,0x7d9821bcb150e},{1794,0x7e1fe8f26335a},{1794,0x81dd109127525},{1794,0x8c1d0c2b3a6cf},{1794,0x8eb2999402935},{1794,0x9c351a7483d23},{1794,0x9ffa539cd68a9},{1794,0xa22ca8d99353f},{1794,0xa429c21fe3a84},{1794,0xa6dac3fcddfc8},{1794,0xa82415f593934},{1794,0xac1e69cb437e5},{1794,0xadcb6f71d1511},{1794,0xb4131176a3546},{1794,0xb83c4587ec3af},{1794,0xbdd49f230c137},{1794,0xc25c857cfbc44},{1794,0xce4be2364521f},{1794,0xd22842f8c3f0e},{1794,0xd953b08d71957},{1794,0xe45b7ee49e08f},{1794,0xe787625e437f6},{1794,0xeeae23423a231},{1794,0xfa6b1b92f6eff},{1794,0xfc2c6ffbf44e8},
{1795,0x5cb22e9e0c38},{1795,0xbf3a86e8a285},{1795,0x1bff038810f34},{1795,0x1d31865271508},{1795,0x1d78c236c07bb},{1795,0x1dcefcc37de9f},{1795,0x271ab5f253c4d},{1795,0x340a1c932c1ed},{1795,0x3c4804f1a58f2},{1795,0x3fbc4be6e440c},{1795,0x45fe55c41873d},{1795,0x4d64d4079150b},{1795,0x69620e174b124},{1795,0x6c792c7044cdd},{1795,0x7d50e5d86225b},{1795,0x7d9821bcb150e},{1795,0x8c1d0c2b3a6cf},{1795,0x944072c923fc2},{1795,0x9c3bc80c85c7e},{1795,0x9ffa539cd68a9},{1795,0xa429c21fe3a84},{1795,0xa6dac3fcddfc8},{1795,0xa82415f593934},{1795,0xac1e69cb437e5},{1795,0xadcb6f71d1511},{1795,0xb5ff848d4e246},{1795,0xb83c4587ec3af},{1795,0xbc07b922032a7},{1795,0xc34413df18ae7},{1795,0xc86411ac223bc},{1795,0xce4be2364521f},{1795,0xd953b08d71957},{1795,0xdc2423827a333},{1795,0xddfebd26f1514},{1795,0xded797b907cf3},{1795,0xe3ceff7ae258c},{1795,0xe45b7ee49e08f},{1795,0xeeae23423a231},{1795,0xef634d3bca7c7},{1795,0xf476c8ff1bd96},{1795,0xfa6b1b92f6eff},
{1796,0xbf3a86e8a285},{1796,0x1bff038810f34},{1796,0x1d5ffd52f681b},{1796,0x1dcefcc37de9f},{1796,0x1ec0f71ddc102},{1796,0x2d926942bff1d},{1796,0x340a1c932c1ed},{1796,0x3b1f5197eabe3},{1796,0x3b560f762c68e},{1796,0x3c4804f1a58f2},{1796,0x3f19a56d9aa93},{1796,0x44a2472376270},{1796,0x45fe55c41873d},{1796,0x4d64d4079150b},{1796,0x50a69c12047ec},{1796,0x54f604775c2b7},{1796,0x5eaa36d1cac8d},{1796,0x63edb32a9fe31},{1796,0x69620e174b124},{1796,0x7d50e5d86225b},{1796,0x7d9821bcb150e},{1796,0x8c1d0c2b3a6cf},{1796,0x944072c923fc2},{1796,0x9c3bc80c85c7e},{1796,0xa82415f593934},{1796,0xadcb6f71d1511},{1796,0xb5641edb9fa2d},{1796,0xb5ff848d4e246},{1796,0xbc07b922032a7},{1796,0xc34413df18ae7},{1796,0xc8c7fb0aaee83},{1796,0xce4be2364521f},{1796,0xcfc3410e1680e},{1796,0xd3cfc961db5bb},{1796,0xd953b08d71957},{1796,0xdc15a4233cb25},{1796,0xded797b907cf3},{1796,0xe30493e281a52},{1796,0xe45b7ee49e08f},{1796,0xe5eb965e1ef96},{1796,0xe6536f12a9ab0},{1796,0xe9df66103442b},{1796,0xeeae23423a231},{1796,0xef634d3bca7c7},{1796,0xf476c8ff1bd96},{1796,0xfa6b1b92f6eff},{1796,0xfaee7c4f88066},
{1797,0x1d5ffd52f681b},{1797,0x2d926942bff1d},{1797,0x2f305616dafd1},{1797,0x30adc928405df},{1797,0x30ce42eaf6085},{1797,0x340a1c932c1ed},{1797,0x3c4804f1a58f2},{1797,0x3f19a56d9aa93},{1797,0x4313f9434a944},{1797,0x44a2472376270},{1797,0x45fe55c41873d},{1797,0x4d64d4079150b},{1797,0x54f604775c2b7},{1797,0x5eaa36d1cac8d},{1797,0x65f728addc94a},{1797,0x6980c6ce70016},{1797,0x739eddb1971e4},{1797,0x7d50e5d86225b},{1797,0x7d9821bcb150e},{1797,0x8c1d0c2b3a6cf},{1797,0x8fa64c6a139a2},{1797,0x9c3bc80c85c7e},{1797,0xa7b09005298db},{1797,0xa82415f593934},{1797,0xb5641edb9fa2d},{1797,0xb5ff848d4e246},{1797,0xc34413df18ae7},{1797,0xcdf58d75b68ee},{1797,0xcfc3410e1680e},{1797,0xd3cfc961db5bb},{1797,0xd691bcf7a6789},{1797,0xd75bc05f65f36},{1797,0xd953b08d71957},{1797,0xdab4aa585723e},{1797,0xdc15a4233cb25},{1797,0xdca94e3990085},{1797,0xded797b907cf3},{1797,0xe10faf0dd7526},{1797,0xe1998b4ed2ec1},{1797,0xe30493e281a52},{1797,0xe45b7ee49e08f},{1797,0xe6536f12a9ab0},{1797,0xeeae23423a231},{1797,0xf7b2a2a751efe},{1797,0xfa6b1b92f6eff},{1797,0xfaee7c4f88066},
{1798,0x1a55d07d39cf},{1798,0x69a1953ee492},{1798,0x13b39c010f3dd},{1798,0x182baf96e0fca},{1798,0x1d5ffd52f681b},{1798,0x23dedc4a1dae5},{1798,0x2bf3fdbee29eb},{1798,0x2f305616dafd1},{1798,0x30adc928405df},{1798,0x340a1c932c1ed},{1798,0x3c4804f1a58f2},{1798,0x4313f9434a944},{1798,0x45fe55c41873d},{1798,0x4d64d4079150b},{1798,0x54f604775c2b7},{1798,0x65f728addc94a},{1798,0x6baa360637483},{1798,0x7cbad0bb199a0},{1798,0x7d50e5d86225b},{1798,0x7d9821bcb150e},{1798,0x82780b8bbd6b6},{1798,0x944072c923fc2},{1798,0xa82415f593934},{1798,0xa91da64ce9f62},{1798,0xb57a51f2211e1},{1798,0xb5ff848d4e246},{1798,0xb7d71ce8f1f8d},{1798,0xc2e162cdb252a},{1798,0xc34413df18ae7},{1798,0xcdf58d75b68ee},{1798,0xd10dd5cc103ed},{1798,0xd691bcf7a6789},{1798,0xd7f2b6c28c070},{1798,0xd953b08d71957},{1798,0xdab4aa585723e},{1798,0xdc15a4233cb25},{1798,0xdd769dee2240c},{1798,0xded797b907cf3},{1798,0xe0389183ed5da},{1798,0xe30493e281a52},{1798,0xe49df5e4efde6},{1798,0xe6536f12a9ab0},{1798,0xeca159a5ff5f9},{1798,0xf0fbb56095b5f},{1798,0xf13aef56e5c2e},{1798,0xf7b2a2a751efe},{1798,0xf9508f7b6cfb2},{1798,0xfa6b1b92f6eff},
{1799,0x69a1953ee492},{1799,0x10053ad686599},{1799,0x1298e1356e89a},{1799,0x13b39c010f3dd},{1799,0x182baf96e0fca},{1799,0x1d5ffd52f681b},{1799,0x2bf3fdbee29eb},{1799,0x2bf47c6ea4e69},{1799,0x2e615faccd777},{1799,0x2f305616dafd1},{1799,0x340a1c932c1ed},{1799,0x4169cf935d1b7},{1799,0x45fe55c41873d},{1799,0x4ae1e8a9c926c},{1799,0x4d64d4079150b},{1799,0x511f96cfc111e},{1799,0x54f604775c2b7},{1799,0x575f17a4c0ee3},{1799,0x648bdd6e57705},{1799,0x65f728addc94a},{1799,0x7d9821bcb150e},{1799,0x82780b8bbd6b6},{1799,0x90d4bf446b09f},{1799,0x93717c5f16768},{1799,0x944072c923fc2},{1799,0x99e6ce1831fd5},{1799,0xa82415f593934},{1799,0xabb7bd89b85ef},{1799,0xaf8e956d1c0d4},{1799,0xb04e5acf997b0},{1799,0xb5ff848d4e246},{1799,0xbc7073ad803b8},{1799,0xc2e162cdb252a},{1799,0xc34413df18ae7},{1799,0xc9a977590d901},{1799,0xca28f4d59476a},{1799,0xd10dd5cc103ed},{1799,0xd3f30fafd0a98},{1799,0xd7f2b6c28c070},{1799,0xd953b08d71957},{1799,0xdab4aa585723e},{1799,0xdc15a4233cb25},{1799,0xdd769dee2240c},{1799,0xded797b907cf3},{1799,0xe30493e281a52},{1799,0xe5bc78af83976},{1799,0xe6536f12a9ab0},{1799,0xeca159a5ff5f9},{1799,0xf0fbb56095b5f},{1799,0xf1e69ad2532ea},{1799,0xf3863a9c7b27c},{1799,0xf88199115f758},{1799,0xf8e9144666385},{1799,0xf9508f7b6cfb2},
{1800,0x889637ce47dc},{1800,0x1298e1356e89a},{1800,0x13b39c010f3dd},{1800,0x182baf96e0fca},{1800,0x2bf47c6ea4e69},{1800,0x2ec8dae1d43a4},{1800,0x2efc987c579bb},{1800,0x2f305616dafd1},{1800,0x2fff4c80e882b},{1800,0x3c1fbcb7b3571},{1800,0x4169cf935d1b7},{1800,0x4d64d4079150b},{1800,0x575f17a4c0ee3},{1800,0x5b8b5fbeced34},{1800,0x648bdd6e57705},{1800,0x65f728addc94a},{1800,0x776e6947c7146},{1800,0x7aceba8bf8176},{1800,0x7d9821bcb150e},{1800,0x7fc196cd2a40c},{1800,0x90d4bf446b09f},{1800,0x93d8f7941d395},{1800,0x944072c923fc2},{1800,0x96f33e462565f},{1800,0x99e6ce1831fd5},{1800,0xa2acb72cb7df0},{1800,0xa82415f593934},{1800,0xabb7bd89b85ef},{1800,0xb04e5acf997b0},{1800,0xb5ff848d4e246},{1800,0xb937fc1d672ff},{1800,0xbc5f32e89ce64},{1800,0xc0e83a52805ff},{1800,0xc2e162cdb252a},{1800,0xc9a977590d901},{1800,0xd086951dfce5d},{1800,0xd10dd5cc103ed},{1800,0xd3f30fafd0a98},{1800,0xd7f2b6c28c070},{1800,0xdab4aa585723e},{1800,0xdc15a4233cb25},{1800,0xded797b907cf3},{1800,0xe30493e281a52},{1800,0xe5bc78af83976},{1800,0xe6536f12a9ab0},{1800,0xf8e9144666385},{1800,0xf9508f7b6cfb2},{1800,0xfc5fb06bf5ba3},
{1801,0xb9d16c1f82af},{1801,0x182baf96e0fca},{1801,0x23764470da965},{1801,0x27e9ac5c614a7},{1801,0x2df9e477c6b4a},{1801,0x2efc987c579bb},{1801,0x2fff4c80e882b},{1801,0x3c1fbcb7b3571},{1801,0x46b3cde0b3508},{1801,0x4d64d4079150b},{1801,0x506395249e5e0},{1801,0x575f17a4c0ee3},{1801,0x60c1443655b3f},{1801,0x648bdd6e57705},{1801,0x65f728addc94a},{1801,0x776e6947c7146},{1801,0x7aceba8bf8176},{1801,0x7fc196cd2a40c},{1801,0x8821cd7c07e7a},{1801,0x93d8f7941d395},{1801,0x940cb52ea09ab},{1801,0x96f33e462565f},{1801,0xa82415f593934},{1801,0xa8de7ccb75b4f},{1801,0xb04e5acf997b0},{1801,0xb2c70cfd3518d},{1801,0xb5ff848d4e246},{1801,0xbc5f32e89ce64},{1801,0xc0e83a52805ff},{1801,0xc2e162cdb252a},{1801,0xc9a977590d901},{1801,0xd3f30fafd0a98},{1801,0xd7f2b6c28c070},{1801,0xded797b907cf3},{1801,0xe30493e281a52},{1801,0xed301f44a226c},{1801,0xf8e9144666385},{1801,0xf9508f7b6cfb2},{1801,0xfc5fb06bf5ba3},
{1802,0x286f41b21d30},{1802,0xe9bd7df05384},{1802,0x182baf96e0fca},{1802,0x27e9ac5c614a7},{1802,0x29e733910cad7},{1802,0x2c80f564c4bdd},{1802,0x2efc987c579bb},{1802,0x3204b48a0a50c},{1802,0x4d64d4079150b},{1802,0x506395249e5e0},{1802,0x60c1443655b3f},{1802,0x616ac8083a6a8},{1802,0x648bdd6e57705},{1802,0x6e57204720e32},{1802,0x776e6947c7146},{1802,0x922b526a3783c},{1802,0x9292615c3aa53},{1802,0x93a539f999d7e},{1802,0x94a7edfe2abef},{1802,0x96f33e462565f},{1802,0xa8de7ccb75b4f},{1802,0xb2c70cfd3518d},{1802,0xb4e35b8efb0a7},{1802,0xb5ff848d4e246},{1802,0xbc5f32e89ce64},{1802,0xc67ae4ba83698},{1802,0xc9a977590d901},{1802,0xd3f30fafd0a98},{1802,0xd8f1f7d98b0af},{1802,0xded797b907cf3},{1802,0xe30493e281a52},{1802,0xe3160e6eacc64},{1802,0xed301f44a226c},{1802,0xf74b27724b2d1},{1802,0xf84ddb76dc142},{1802,0xf8e9144666385},{1802,0xf9508f7b6cfb2},
{1803,0x19ccddc08f73a},{1803,0x2a8f4a268601f},{1803,0x2efc987c579bb},{1803,0x3204b48a0a50c},{1803,0x3cf2e4b62b074},{1803,0x3cfaaeb17473b},{1803,0x46a96bc11e1fd},{1803,0x4833b04249031},{1803,0x4d64d4079150b},{1803,0x60c1443655b3f},{1803,0x616ac8083a6a8},{1803,0x61d2433d412d5},{1803,0x648bdd6e57705},{1803,0x6b70be64d3388},{1803,0x6e57204720e32},{1803,0x776e6947c7146},{1803,0x922b526a3783c},{1803,0x9292615c3aa53},{1803,0x93a539f999d7e},{1803,0x96f33e462565f},{1803,0x9cd99e07f05f7},{1803,0xaee0ec2d385fb},{1803,0xb2c70cfd3518d},{1803,0xb30f310d0416a},{1803,0xb4e35b8efb0a7},{1803,0xc67ae4ba83698},{1803,0xd3f30fafd0a98},{1803,0xd8f1f7d98b0af},{1803,0xded797b907cf3},{1803,0xdfb1fc8074d0f},{1803,0xe3160e6eacc64},{1803,0xe35dc0c898cc5},{1803,0xed301f44a226c},{1803,0xf4d6ee529d3c6},{1803,0xf74b27724b2d1},{1803,0xf8e9144666385},{1803,0xf9508f7b6cfb2},
{1804,0x1591c31be2d2e},{1804,0x19ccddc08f73a},{1804,0x2efc987c579bb},{1804,0x3204b48a0a50c},{1804,0x3cf2e4b62b074},{1804,0x3cfaaeb17473b},{1804,0x4833b04249031},{1804,0x48676ddccc648},{1804,0x559aa497bac81},{1804,0x60c1443655b3f},{1804,0x60cf8f38b0464},{1804,0x648bdd6e57705},{1804,0x6b70be64d3388},{1804,0x6e57204720e32},{1804,0x7e7176179e1cf},{1804,0x87574a7e66365},{1804,0x8f9a69e7563bc},{1804,0x922b526a3783c},{1804,0x9cd99e07f05f7},{1804,0xa08e6244579db},{1804,0xa20f827f77402},{1804,0xa956d8d5ca6b4},{1804,0xad100f5a0ea0b},{1804,0xaee0ec2d385fb},{1804,0xb0618805a90a6},{1804,0xb1e223de19b51},{1804,0xbae5caf0bdb53},{1804,0xc67ae4ba83698},{1804,0xd3f30fafd0a98},{1804,0xdd0c2e407dd09},{1804,0xded797b907cf3},{1804,0xdfb1fc8074d0f},{1804,0xe464ff0136f2f},{1804,0xed301f44a226c},{1804,0xf4d6ee529d3c6},{1804,0xf736f9b3494e8},{1804,0xf74b27724b2d1},
{1805,0x339d9db645b4},{1805,0xbd2a1f374936},{1805,0xc458231910d4},{1805,0x1591c31be2d2e},{1805,0x19ccddc08f73a},{1805,0x20811f528378b},{1805,0x22472dcc1d374},{1805,0x2dedc9052bfbe},{1805,0x2efc987c579bb},{1805,0x3204b48a0a50c},{1805,0x3ff1a5d338149},{1805,0x5d134103091c3},{1805,0x60c1443655b3f},{1805,0x60cf8f38b0464},{1805,0x648bdd6e57705},{1805,0x6e57204720e32},{1805,0x7324dec5fab94},{1805,0x7fac5b85c5a3f},{1805,0x8881ebb9ec611},{1805,0x8f9a69e7563bc},{1805,0x922b526a3783c},{1805,0x9292615c3aa53},{1805,0x93e7f8a6b80f6},{1805,0x94a7edfe2abef},{1805,0xa956d8d5ca6b4},{1805,0xabdfb47c570a5},{1805,0xb0618805a90a6},{1805,0xb1e223de19b51},{1805,0xb9c57a0a49052},{1805,0xbae5caf0bdb53},{1805,0xbe654495fc314},{1805,0xc67ae4ba83698},{1805,0xc7e99d9ed974b},{1805,0xded797b907cf3},{1805,0xdf88d2e59a1d4},{1805,0xdfe5ba1af8325},{1805,0xe464ff0136f2f},{1805,0xf4d6ee529d3c6},{1805,0xf6fe24c25860b},{1805,0xf736f9b3494e8},
{1806,0x6c0eaa65b554},{1806,0xc458231910d4},{1806,0x14c4a2ef68519},{1806,0x1591c31be2d2e},{1806,0x1732d9f7c19eb},{1806,0x1a9f4732b7560},{1806,0x20811f528378b},{1806,0x2efc987c579bb},{1806,0x3204b48a0a50c},{1806,0x3f30cf55cfcbb},{1806,0x496a21e15d4b8},{1806,0x551cd88d06c8e},{1806,0x60c1443655b3f},{1806,0x60cf8f38b0464},{1806,0x648bdd6e57705},{1806,0x7461094350506},{1806,0x7834fc9003410},{1806,0x8379b0e8c53f0},{1806,0x8e6f1e85b7abc},{1806,0x8f9a69e7563bc},{1806,0x922b526a3783c},{1806,0x9292615c3aa53},{1806,0x93e7f8a6b80f6},{1806,0xa05aa4a9d43c5},{1806,0xabdfb47c570a5},{1806,0xaf41f99f66b99},{1806,0xb0618805a90a6},{1806,0xb362bfb68a5fc},{1806,0xb9c57a0a49052},{1806,0xc67ae4ba83698},{1806,0xd27ae5efaba2a},{1806,0xdf88d2e59a1d4},{1806,0xdfe5ba1af8325},{1806,0xe464ff0136f2f},{1806,0xf22ebee2222c7},{1806,0xf6fe24c25860b},{1806,0xf736f9b3494e8},{1806,0xfaa1cfed81f64},
{1807,0x2026ff694c93},{1807,0x5efaac0be0f2},{1807,0x6c0eaa65b554},{1807,0xc458231910d4},{1807,0x14c4a2ef68519},{1807,0x1591c31be2d2e},{1807,0x20811f528378b},{1807,0x2382570364ce1},{1807,0x2efc987c579bb},{1807,0x3db76b35b3ce2},{1807,0x496a21e15d4b8},{1807,0x51de5662139e0},{1807,0x551cd88d06c8e},{1807,0x58fa973d5ac47},{1807,0x5af633e2db879},{1807,0x60c1443655b3f},{1807,0x60cf8f38b0464},{1807,0x648bdd6e57705},{1807,0x6c8245e459c3a},{1807,0x7461094350506},{1807,0x8e3ddbcde2924},{1807,0x9a814953ff7da},{1807,0x9b065c7e744e2},{1807,0x9d6df6fee9dcf},{1807,0xa05aa4a9d43c5},{1807,0xabdfb47c570a5},{1807,0xaf41f99f66b99},{1807,0xb0618805a90a6},{1807,0xb362bfb68a5fc},{1807,0xbd58554e0746c},{1807,0xd16eec9f57b58},{1807,0xd5cab1ed4f2c0},{1807,0xdfe5ba1af8325},{1807,0xe464ff0136f2f},{1807,0xed2df2c578968},{1807,0xf736f9b3494e8},{1807,0xf9120a4b74289},
{1808,0x6c0eaa65b554},{1808,0x12a51570f8738},{1808,0x14c4a2ef68519},{1808,0x20811f528378b},{1808,0x2382570364ce1},{1808,0x2410513e61981},{1808,0x2651fdde60d36},{1808,0x3161da16753e9},{1808,0x31b3f52209557},{1808,0x496a21e15d4b8},{1808,0x4a7f633a1ef3c},{1808,0x4f437d37320a3},{1808,0x51de5662139e0},{1808,0x551cd88d06c8e},{1808,0x58098637f1284},{1808,0x5af633e2db879},{1808,0x60c1443655b3f},{1808,0x60cf8f38b0464},{1808,0x648bdd6e57705},{1808,0x66a8ea8e8504f},{1808,0x67b105bfddec3},{1808,0x79693b4676fae},{1808,0x8cc994cefbd0a},{1808,0x8e3ddbcde2924},{1808,0x97772a92962ec},{1808,0x9b4d2092ffb92},{1808,0x9d6df6fee9dcf},{1808,0x9eafcb1f48dbb},{1808,0xa069031b6642e},{1808,0xabdfb47c570a5},{1808,0xaf41f99f66b99},{1808,0xb8501a7ce024b},{1808,0xd1fc5461a630c},{1808,0xd20e63b7a801f},{1808,0xd5cab1ed4f2c0},{1808,0xe2d267c5e291b},{1808,0xf736f9b3494e8},{1808,0xf7916e73037de},
{1809,0x6c0eaa65b554},{1809,0x14c4a2ef68519},{1809,0x20811f528378b},{1809,0x2382570364ce1},{1809,0x2410513e61981},{1809,0x2651fdde60d36},{1809,0x31b3f52209557},{1809,0x36cda4a9e9fd9},{1809,0x3a825c100dd11},{1809,0x4390c68b888cd},{1809,0x49118f2665794},{1809,0x51de5662139e0},{1809,0x52302ae21c699},{1809,0x551cd88d06c8e},{1809,0x58098637f1284},{1809,0x5af633e2db879},{1809,0x5de2e18dc5e6f},{1809,0x60c1443655b3f},{1809,0x60cf8f38b0464},{1809,0x648bdd6e57705},{1809,0x668a5eb6243b2},{1809,0x67b105bfddec3},{1809,0x79693b4676fae},{1809,0x7e0e57e5d7ffb},{1809,0x97772a92962ec},{1809,0x9b4d2092ffb92},{1809,0x9d6df6fee9dcf},{1809,0x9e958e6a526d8},{1809,0x9eafcb1f48dbb},{1809,0xa069031b6642e},{1809,0xabdfb47c570a5},{1809,0xb8501a7ce024b},{1809,0xc18a65103fe75},{1809,0xd1fc5461a630c},{1809,0xd20e63b7a801f},{1809,0xd57a1714c6eed},{1809,0xe2d267c5e291b},{1809,0xf00e6338d0287},{1809,0xf3db90ab88000},{1809,0xf736f9b3494e8},
{1810,0x16affa5283f0},{1810,0x6c0eaa65b554},{1810,0x91335313919f},{1810,0xeb525b72cdbd},{1810,0x14c4a2ef68519},{1810,0x20811f528378b},{1810,0x2382570364ce1},{1810,0x4390c68b888cd},{1810,0x4599ae61a15d2},{1810,0x476b9570ed92e},{1810,0x49118f2665794},{1810,0x51de5662139e0},{1810,0x551cd88d06c8e},{1810,0x58098637f1284},{1810,0x5af633e2db879},{1810,0x60c1443655b3f},{1810,0x60cf8f38b0464},{1810,0x67b105bfddec3},{1810,0x6f50b87940782},{1810,0x79693b4676fae},{1810,0x7bd5312e51d01},{1810,0x7e0e57e5d7ffb},{1810,0x89c85d1e1a7b4},{1810,0x95af919ca71f1},{1810,0x97772a92962ec},{1810,0x9b4d2092ffb92},{1810,0x9d6df6fee9dcf},{1810,0x9e958e6a526d8},{1810,0xabdfb47c570a5},{1810,0xaee0ac34b6c4d},{1810,0xb01d1817c4618},{1810,0xb8501a7ce024b},{1810,0xca7f2b15cf7d4},{1810,0xd20e63b7a801f},{1810,0xd57e3db5885bd},{1810,0xdeff5ea4bcfa9},{1810,0xe2d267c5e291b},{1810,0xf370588ce6270},{1810,0xf736f9b3494e8},
{1811,0x20724a9f4de3},{1811,0x6c0eaa65b554},{1811,0x91335313919f},{1811,0xb5534a73ef1b},{1811,0x182e379ed6db1},{1811,0x1c6a64a9ef6de},{1811,0x40782155f2f9d},{1811,0x4599ae61a15d2},{1811,0x476b9570ed92e},{1811,0x58098637f1284},{1811,0x5b6f015f0fdb6},{1811,0x60c1443655b3f},{1811,0x60cf8f38b0464},{1811,0x61d2a7920f8b3},{1811,0x67b105bfddec3},{1811,0x726cc637ebb7f},{1811,0x7bd5312e51d01},{1811,0x8859a9e363280},{1811,0x89c85d1e1a7b4},{1811,0x9b1fc0f5ef07e},{1811,0x9b4d2092ffb92},{1811,0x9d6df6fee9dcf},{1811,0x9e958e6a526d8},{1811,0xae0be7c5ed725},{1811,0xaee0ac34b6c4d},{1811,0xb01d1817c4618},{1811,0xb8501a7ce024b},{1811,0xd046cac1b8f24},{1811,0xd20e63b7a801f},{1811,0xd2f7b208bb6d2},{1811,0xf736f9b3494e8},{1811,0xfb4840532a9e5},
{1812,0x20724a9f4de3},{1812,0x4f3d254df3d8},{1812,0x85ac12eb0774},{1812,0x91335313919f},{1812,0x182e379ed6db1},{1812,0x24b137a63de27},{1812,0x2662c776bc600},{1812,0x2d085570f3033},{1812,0x3a825c100dd11},{1812,0x40782155f2f9d},{1812,0x4599ae61a15d2},{1812,0x4a01b46694559},{1812,0x52302ae21c699},{1812,0x58098637f1284},{1812,0x60c1443655b3f},{1812,0x60cf8f38b0464},{1812,0x61d2a7920f8b3},{1812,0x67b105bfddec3},{1812,0x6d90cc74708df},{1812,0x830ab6feef4d4},{1812,0x8859a9e363280},{1812,0x8922f31411455},{1812,0x89434286cd7de},{1812,0x89c85d1e1a7b4},{1812,0x9b4d2092ffb92},{1812,0x9e958e6a526d8},{1812,0xae0be7c5ed725},{1812,0xb01d1817c4618},{1812,0xd046cac1b8f24},{1812,0xd20e63b7a801f},{1812,0xd2f7b208bb6d2},{1812,0xd90d188ceb975},{1812,0xda7423741ea49},{1812,0xf38643fd94449},{1812,0xf736f9b3494e8},{1812,0xfb4840532a9e5},
{1813,0x20724a9f4de3},{1813,0x4f3d254df3d8},{1813,0x91335313919f},{1813,0x981d9641edf4},{1813,0x1deaf86443ec3},{1813,0x22329b0206f6f},{1813,0x2662c776bc600},{1813,0x2eda968934d3d},{1813,0x3117f602b5985},{1813,0x3693ee1ca73e7},{1813,0x3b5200d2d4d3f},{1813,0x40782155f2f9d},{1813,0x4a01b46694559},{1813,0x4eac0961bbaab},{1813,0x61d2a7920f8b3},{1813,0x6d90cc74708df},{1813,0x801e095404edf},{1813,0x822dbac231dc2},{1813,0x8859a9e363280},{1813,0x89434286cd7de},{1813,0x89c85d1e1a7b4},{1813,0xa3c8dabd606a1},{1813,0xaa23c419f4fc4},{1813,0xada8adf60f4a9},{1813,0xae0be7c5ed725},{1813,0xb76e2c9605afe},{1813,0xb927c73dfaf0a},{1813,0xc3da7babdf511},{1813,0xd046cac1b8f24},{1813,0xd20e63b7a801f},{1813,0xd2f7b208bb6d2},{1813,0xdbf9c637d5f6b},{1813,0xf38643fd94449},{1813,0xfb4840532a9e5},
{1814,0x91335313919f},{1814,0xcfb5a3f53049},{1814,0xfdcc2c0b3717},{1814,0x15a2e819a0087},{1814,0x22329b0206f6f},{1814,0x2662c776bc600},{1814,0x278dc3e2e01e3},{1814,0x3117f602b5985},{1814,0x3752659bad47a},{1814,0x3883cd0d6d245},{1814,0x3b5200d2d4d3f},{1814,0x3d8cd534a4f6f},{1814,0x4c334ad75b64d},{1814,0x593f42a452b9c},{1814,0x61d2a7920f8b3},{1814,0x6384fdd46b495},{1814,0x6fc5475a5ba85},{1814,0x81b1835f23db0},{1814,0x85bcf03e9f2b2},{1814,0x8859a9e363280},{1814,0x89434286cd7de},{1814,0x89c85d1e1a7b4},{1814,0x8e862e9b696e6},{1814,0x8ebd6daa98caa},{1814,0x9714f88cf9302},{1814,0xaa23c419f4fc4},{1814,0xae0be7c5ed725},{1814,0xb76e2c9605afe},{1814,0xb776376d7c731},{1814,0xb927c73dfaf0a},{1814,0xb9875f6267936},{1814,0xc3da7babdf511},{1814,0xc502d6fee1b48},{1814,0xd046cac1b8f24},{1814,0xd20e63b7a801f},{1814,0xd2f7b208bb6d2},{1814,0xdbf9c637d5f6b},{1814,0xe488902965b87},{1814,0xf38643fd94449},{1814,0xfb4840532a9e5},
{1815,0x91335313919f},{1815,0x15a2e819a0087},{1815,0x1beac18dd37fb},{1815,0x1f9f8ac077e40},{1815,0x22329b0206f6f},{1815,0x2662c776bc600},{1815,0x26da364f0cf40},{1815,0x2b2a454445f08},{1815,0x2ec24dea6de57},{1815,0x3117f602b5985},{1815,0x3752659bad47a},{1815,0x52302ae21c699},{1815,0x547166a3a2b0f},{1815,0x5702f934b5780},{1815,0x61d2a7920f8b3},{1815,0x81b1835f23db0},{1815,0x85bcf03e9f2b2},{1815,0x8859a9e363280},{1815,0x8922f31411455},{1815,0x89434286cd7de},{1815,0x8ebd6daa98caa},{1815,0xae0be7c5ed725},{1815,0xb776376d7c731},{1815,0xb9875f6267936},{1815,0xc3da7babdf511},{1815,0xc502d6fee1b48},{1815,0xc865d5926d5ab},{1815,0xd20e63b7a801f},{1815,0xe1979cf895282},{1815,0xf2e6fa4d2317c},{1815,0xfb4840532a9e5},
{1816,0xf5b0ea56c913},{1816,0x15a2e819a0087},{1816,0x1beac18dd37fb},{1816,0x1f9f8ac077e40},{1816,0x22329b0206f6f},{1816,0x2662c776bc600},{1816,0x287a74763a6e3},{1816,0x2b2a454445f08},{1816,0x2bc43fbf4d2b4},{1816,0x3117f602b5985},{1816,0x3752659bad47a},{1816,0x3796945a1f91b},{1816,0x384f037b8492b},{1816,0x4846a9a2af264},{1816,0x53c2213f29476},{1816,0x547166a3a2b0f},{1816,0x5702f934b5780},{1816,0x61d2a7920f8b3},{1816,0x6ab097e8e02fa},{1816,0x7db88802ff716},{1816,0x81b1835f23db0},{1816,0x85bcf03e9f2b2},{1816,0x8922f31411455},{1816,0x89434286cd7de},{1816,0x8b9980f07f0f0},{1816,0x933fe52da5597},{1816,0x94af560f0e940},{1816,0x9e0eca361317a},{1816,0xb9875f6267936},{1816,0xba475176936e0},{1816,0xbe151e69f84ad},{1816,0xc3da7babdf511},{1816,0xc502d6fee1b48},{1816,0xcb140342c3235},{1816,0xd25bb2e967b00},{1816,0xf21be00591d9b},{1816,0xfbc407dfa042b},{1816,0xfe6c2d0d4459f},
{1817,0x3f4334e7a5fa},{1817,0xfa64ec2d2efb},{1817,0x15a2e819a0087},{1817,0x18c6d4d3b9c41},{1817,0x1a58cb30c6a1e},{1817,0x1beac18dd37fb},{1817,0x1f0eae47ed3b5},{1817,0x1f9f8ac077e40},{1817,0x2662c776bc600},{1817,0x3117f602b5985},{1817,0x350a275ea15cb},{1817,0x3752659bad47a},{1817,0x3796945a1f91b},{1817,0x4846a9a2af264},{1817,0x53c2213f29476},{1817,0x547166a3a2b0f},{1817,0x61d2a7920f8b3},{1817,0x6ab097e8e02fa},{1817,0x7db88802ff716},{1817,0x80e704828b5cd},{1817,0x81b1835f23db0},{1817,0x85bcf03e9f2b2},{1817,0x89434286cd7de},{1817,0x8b9980f07f0f0},{1817,0x8e847ff938de0},{1817,0x94af560f0e940},{1817,0x9e0eca361317a},{1817,0xb9875f6267936},{1817,0xbcbc562eb389a},{1817,0xc3da7babdf511},{1817,0xc502d6fee1b48},{1817,0xd16cfc8345ffa},{1817,0xd3e34c231ec49},{1817,0xe214eeb906ceb},{1817,0xed219d0b3c118},{1817,0xf227ba4243c9f},{1817,0xfcda36b0377c2},
{1818,0x5c03291ff292},{1818,0x5ef48771f5e5},{1818,0x15a2e819a0087},{1818,0x18c6d4d3b9c41},{1818,0x19569c5a5c5c0},{1818,0x1a58cb30c6a1e},{1818,0x1b21c65f4d10d},{1818,0x1beac18dd37fb},{1818,0x1d7cb7eae05d8},{1818,0x1da34c7513d3a},{1818,0x255687bc20b29},{1818,0x3117f602b5985},{1818,0x350a275ea15cb},{1818,0x3752659bad47a},{1818,0x3796945a1f91b},{1818,0x399c4ac9dd39c},{1818,0x51017ec246bba},{1818,0x53c2213f29476},{1818,0x547166a3a2b0f},{1818,0x5dd90b559375a},{1818,0x61d2a7920f8b3},{1818,0x6ab097e8e02fa},{1818,0x7090c3e2d0310},{1818,0x70eb0781d7def},{1818,0x7db88802ff716},{1818,0x81b1835f23db0},{1818,0x845fb10f79a3a},{1818,0x85bcf03e9f2b2},{1818,0x8c627c1f057df},{1818,0x9199eb0423b90},{1818,0x94af560f0e940},{1818,0x9e0eca361317a},{1818,0xc3da7babdf511},{1818,0xc502d6fee1b48},{1818,0xd16cfc8345ffa},{1818,0xd3e34c231ec49},{1818,0xeb6bafd91596b},{1818,0xeeec7b4c5388b},{1818,0xf175a2fca9563},
{1819,0x5ef48771f5e5},{1819,0xdc918485fb36},{1819,0x15a2e819a0087},{1819,0x198fd00240330},{1819,0x1a58cb30c6a1e},{1819,0x1b21c65f4d10d},{1819,0x1beac18dd37fb},{1819,0x1cb3bcbc59eea},{1819,0x1d7cb7eae05d8},{1819,0x255687bc20b29},{1819,0x3771f3cf3b2c1},{1819,0x3796945a1f91b},{1819,0x43b8daf891821},{1819,0x4429f22efa01a},{1819,0x51017ec246bba},{1819,0x53c2213f29476},{1819,0x547166a3a2b0f},{1819,0x5da6e714808a6},{1819,0x5dd90b559375a},{1819,0x6ab097e8e02fa},{1819,0x70124eaf1762a},{1819,0x7090c3e2d0310},{1819,0x7788247c2ce9a},{1819,0x7db88802ff716},{1819,0x81b1835f23db0},{1819,0x8c627c1f057df},{1819,0x9199eb0423b90},{1819,0x94af560f0e940},{1819,0x988532593db9c},{1819,0xa2f384d026039},{1819,0xa8b2a98ef3993},{1819,0xadfe39ddf2e3d},{1819,0xb385847c3b220},{1819,0xb4405448a9449},{1819,0xbca3c7197e894},{1819,0xbfd8478e0f743},{1819,0xc3da7babdf511},{1819,0xc502d6fee1b48},{1819,0xd16cfc8345ffa},{1819,0xd3e34c231ec49},{1819,0xe153046ecfcfc},{1819,0xeeec7b4c5388b},
{1820,0x5ef48771f5e5},{1820,0xb751e5085a0d},{1820,0x10cbbfe1c719a},{1820,0x14bb338120283},{1820,0x15a2e819a0087},{1820,0x1a58cb30c6a1e},{1820,0x1b21c65f4d10d},{1820,0x1d7cb7eae05d8},{1820,0x2d30578d6107a},{1820,0x3796945a1f91b},{1820,0x43b8daf891821},{1820,0x4ba198ef2ee21},{1820,0x51017ec246bba},{1820,0x51da08e53ed79},{1820,0x547166a3a2b0f},{1820,0x576d450bed18a},{1820,0x5ba81b360378c},{1820,0x5dd90b559375a},{1820,0x610eee7a66a42},{1820,0x6444d19f39d2a},{1820,0x666e106b4bbf0},{1820,0x6ab097e8e02fa},{1820,0x711c5e32868ca},{1820,0x7bb76df41782f},{1820,0x81b1835f23db0},{1820,0x8cf9ca73c3708},{1820,0x90d4904169024},{1820,0x91373da2c65da},{1820,0x9199eb0423b90},{1820,0x94af560f0e940},{1820,0xa7e9ae606d2a5},{1820,0xa8b2a98ef3993},{1820,0xb385847c3b220},{1820,0xb4405448a9449},{1820,0xbca3c7197e894},{1820,0xc3da7babdf511},{1820,0xccb4f4db843d4},{1820,0xd16cfc8345ffa},{1820,0xd3e34c231ec49},{1820,0xebb69827805a3},{1820,0xf7ede86dc2153},
{1821,0x47df126a59cc},{1821,0x5ef48771f5e5},{1821,0xb751e5085a0d},{1821,0x10cbbfe1c719a},{1821,0x1586278d23991},{1821,0x1b21c65f4d10d},{1821,0x1d7cb7eae05d8},{1821,0x2796fca48b917},{1821,0x2d30578d6107a},{1821,0x30e69f5206eaa},{1821,0x3796945a1f91b},{1821,0x43b8daf891821},{1821,0x51017ec246bba},{1821,0x547166a3a2b0f},{1821,0x576d450bed18a},{1821,0x5aa32830c0472},{1821,0x5dd90b559375a},{1821,0x5f73fce7fd0ce},{1821,0x610eee7a66a42},{1821,0x6185ba5fdd1d9},{1821,0x6444d19f39d2a},{1821,0x677ab4c40d012},{1821,0x6cb0519c81751},{1821,0x711c5e32868ca},{1821,0x7bfc97a09d635},{1821,0x81b1835f23db0},{1821,0x8cf9ca73c3708},{1821,0x90d4904169024},{1821,0x91373da2c65da},{1821,0xa8b2a98ef3993},{1821,0xaa449fec00770},{1821,0xb084519d0f273},{1821,0xb1521d13062ea},{1821,0xd4e2b2125d4d6},{1821,0xe834d0ff29bae},{1821,0xed5189b9e9f17},{1821,0xef169d8f83a5f},{1821,0xf7ede86dc2153},
{1822,0x47df126a59cc},{1822,0x5ef48771f5e5},{1822,0xb751e5085a0d},{1822,0x1586278d23991},{1822,0x19860d7a88992},{1822,0x198fd00240330},{1822,0x1b21c65f4d10d},{1822,0x2796fca48b917},{1822,0x2d30578d6107a},{1822,0x3e53c05f95173},{1822,0x40f40f0a26d32},{1822,0x43b8daf891821},{1822,0x51017ec246bba},{1822,0x547166a3a2b0f},{1822,0x5c3e19c329de6},{1822,0x5dd90b559375a},{1822,0x5f73fce7fd0ce},{1822,0x5ff3c402d03fc},{1822,0x604175b131d88},{1822,0x610eee7a66a42},{1822,0x62a9e00cd03b6},{1822,0x63e0abeb706a4},{1822,0x6444d19f39d2a},{1822,0x711c5e32868ca},{1822,0x7fec216198ddb},{1822,0x8129cdeaa6752},{1822,0x827adc2058ec1},{1822,0x8cf9ca73c3708},{1822,0x8fc2728926d35},{1822,0x90d4904169024},{1822,0x91373da2c65da},{1822,0xa8b2a98ef3993},{1822,0xaa449fec00770},{1822,0xb9f83f8e81212},{1822,0xcbe4a38f3b9f9},{1822,0xccb4f4db843d4},{1822,0xec8410f0b525d},{1822,0xf0a893ec9083c},
{1823,0x47df126a59cc},{1823,0xb751e5085a0d},{1823,0xcbee42ab7ce6},{1823,0x19860d7a88992},{1823,0x1a487baa7d13c},{1823,0x1b21c65f4d10d},{1823,0x2796fca48b917},{1823,0x280110855c00f},{1823,0x2cbac35f71140},{1823,0x35a7ebce8e89c},{1823,0x3e53c05f95173},{1823,0x40f40f0a26d32},{1823,0x51017ec246bba},{1823,0x547166a3a2b0f},{1823,0x5908369e56afe},{1823,0x5dd90b559375a},{1823,0x5ea6841ec8414},{1823,0x5f73fce7fd0ce},{1823,0x5fdab94c9772b},{1823,0x604175b131d88},{1823,0x610eee7a66a42},{1823,0x61dc67439b6fc},{1823,0x6915a65676986},{1823,0x6b762161fdce8},{1823,0x711c5e32868ca},{1823,0x827adc2058ec1},{1823,0x83c2f8c14b08e},{1823,0x8cf9ca73c3708},{1823,0x8fc2728926d35},{1823,0x90d4904169024},{1823,0x91373da2c65da},{1823,0x91cb41b4d266b},{1823,0x969cb8f5e15ce},{1823,0x9acc04ff780bf},{1823,0xba4ba68f179c6},{1823,0xcbe4a38f3b9f9},{1823,0xccb4f4db843d4},{1823,0xe17a6c3b65e82},{1823,0xeaad3c9634c46},{1823,0xec8410f0b525d},
{1824,0x47df126a59cc},{1824,0xcbee42ab7ce6},{1824,0xf63366891584},{1824,0x18d277bdd70de},{1824,0x19860d7a88992},{1824,0x23ee44df5f126},{1824,0x2796fca48b917},{1824,0x2cbac35f71140},{1824,0x3137e237d4689},{1824,0x358741df83159},{1824,0x40f40f0a26d32},{1824,0x5504dab04eb5c},{1824,0x5908369e56afe},{1824,0x5d0b928c5eaa0},{1824,0x5f0d408362a71},{1824,0x5f73fce7fd0ce},{1824,0x5fdab94c9772b},{1824,0x604175b131d88},{1824,0x60a83215cc3e5},{1824,0x610eee7a66a42},{1824,0x65124a686e9e4},{1824,0x6915a65676986},{1824,0x6cb9ec831e05d},{1824,0x827adc2058ec1},{1824,0x8cf9ca73c3708},{1824,0x91373da2c65da},{1824,0x91cb41b4d266b},{1824,0xa62f651ea64c4},{1824,0xb958d4ef1622e},{1824,0xba4ba68f179c6},{1824,0xc318250f299e0},{1824,0xcbe4a38f3b9f9},{1824,0xd91b2478cf849},{1824,0xdfe729b9ff152},{1824,0xe1abc2ec1495d},{1824,0xe4eb82899cc0e},{1824,0xeaad3c9634c46},{1824,0xed571b88eeac4},
{1825,0x325c9bb7a627},{1825,0x47df126a59cc},{1825,0x7f6d3021c2fd},{1825,0x14d5d90987360},{1825,0x19860d7a88992},{1825,0x198fd00240330},{1825,0x1ff1190932a64},{1825,0x292142776764b},{1825,0x2a0fb8019cbf7},{1825,0x2b28cd0264363},{1825,0x2ce34363fef08},{1825,0x3cc1ca0288396},{1825,0x3ffd5d96bd6eb},{1825,0x40f40f0a26d32},{1825,0x5504dab04eb5c},{1825,0x5b09e4955aacf},{1825,0x5d0b928c5eaa0},{1825,0x5f0d408362a71},{1825,0x5f73fce7fd0ce},{1825,0x5fdab94c9772b},{1825,0x604175b131d88},{1825,0x610eee7a66a42},{1825,0x63109c716aa13},{1825,0x65124a686e9e4},{1825,0x6915a65676986},{1825,0x6cb9ec831e05d},{1825,0x7d2671fc9e7b0},{1825,0x7f38c80212ad0},{1825,0x7fec216198ddb},{1825,0x827adc2058ec1},{1825,0x8cf9ca73c3708},{1825,0x91373da2c65da},{1825,0x91cb41b4d266b},{1825,0x96c6458e391ac},{1825,0xa2c4d86d4c27a},{1825,0xb0d5c7974f1ff},{1825,0xd64e0f4ac1a93},{1825,0xd91b2478cf849},{1825,0xdfe729b9ff152},{1825,0xed571b88eeac4},{1825,0xf01fdf372aa22},
{1826,0x121c87b90c472},{1826,0x19860d7a88992},{1826,0x3af84b7040464},{1826,0x40f40f0a26d32},{1826,0x4afc74dd3ac47},{1826,0x4c0081d6be429},{1826,0x5504dab04eb5c},{1826,0x5f0d408362a71},{1826,0x5fdab94c9772b},{1826,0x610eee7a66a42},{1826,0x665077372955d},{1826,0x68e44fa5c7eab},{1826,0x6915a65676986},{1826,0x6f1cf5b73b576},{1826,0x731e0c298a89b},{1826,0x74e2762e78a19},{1826,0x77e974374d590},{1826,0x7fec216198ddb},{1826,0x80b5f2b75f5a9},{1826,0x827adc2058ec1},{1826,0x89827137715c3},{1826,0x8cf9ca73c3708},{1826,0x91cb41b4d266b},{1826,0x94b3e943492f5},{1826,0xa5480948ee404},{1826,0xb2122545d7b6f},{1826,0xdfe729b9ff152},{1826,0xe39925d2e75eb},{1826,0xe53a99f53ee6a},{1826,0xf5752d10b0e73},
{1827,0x80a919f2b7c3},{1827,0xeca11eac31c9},{1827,0x121c87b90c472},{1827,0x1379306149be9},{1827,0x17166b87b2f2b},{1827,0x18e7dea3444da},{1827,0x19860d7a88992},{1827,0x1e431acf54b36},{1827,0x33f54b827637c},{1827,0x37efdb1f4c342},{1827,0x3af84b7040464},{1827,0x40f40f0a26d32},{1827,0x4c0081d6be429},{1827,0x5504dab04eb5c},{1827,0x5f0d408362a71},{1827,0x5fdab94c9772b},{1827,0x610eee7a66a42},{1827,0x68e44fa5c7eab},{1827,0x6915a65676986},{1827,0x6e10eea3ba3b3},{1827,0x6f1cf5b73b576},{1827,0x731e0c298a89b},{1827,0x74e2762e78a19},{1827,0x77e974374d590},{1827,0x7d57c8ad4d28b},{1827,0x80b5f2b75f5a9},{1827,0x811e33781b74a},{1827,0x827adc2058ec1},{1827,0x8bf23c832a47b},{1827,0xa5480948ee404},{1827,0xcb81d18d9c8fc},{1827,0xd772066851f6d},{1827,0xdfe729b9ff152},{1827,0xe39925d2e75eb},{1827,0xe3ef2d83de57a},{1827,0xe53a99f53ee6a},{1827,0xeec3368eed2ab},{1827,0xf2d93087a5910},{1827,0xf5752d10b0e73},
{1828,0x7f6d3021c2fd},{1828,0x80a919f2b7c3},{1828,0x121c87b90c472},{1828,0x17166b87b2f2b},{1828,0x18e7dea3444da},{1828,0x19860d7a88992},{1828,0x33f2a575e1777},{1828,0x33f54b827637c},{1828,0x37efdb1f4c342},{1828,0x40f40f0a26d32},{1828,0x5f0d408362a71},{1828,0x5fdab94c9772b},{1828,0x5ff3c402d03fc},{1828,0x67ed5f4b7f4fd},{1828,0x6e10eea3ba3b3},{1828,0x731e0c298a89b},{1828,0x7d57c8ad4d28b},{1828,0x811e33781b74a},{1828,0x827adc2058ec1},{1828,0x8beb826ca5a4a},{1828,0x8bf23c832a47b},{1828,0x901972b2bf967},{1828,0x96b7c029cabe1},{1828,0xb7f0b503844fb},{1828,0xb8119d5e9dcf0},{1828,0xc5148b29fd0b4},{1828,0xcb81d18d9c8fc},{1828,0xdfe729b9ff152},{1828,0xe3ef2d83de57a},{1828,0xe53a99f53ee6a},{1828,0xec09e53e723bd},{1828,0xeec3368eed2ab},{1828,0xf5752d10b0e73},
{1829,0x608e3a8277f2},{1829,0x7e790fabceeb},{1829,0x7f6d3021c2fd},{1829,0x80a919f2b7c3},{1829,0xd5875d1aba52},{1829,0x121c87b90c472},{1829,0x18ebd3023f9c5},{1829,0x19860d7a88992},{1829,0x26b86d4e293a8},{1829,0x2bf07a143f6d3},{1829,0x33f2a575e1777},{1829,0x33f54b827637c},{1829,0x40f40f0a26d32},{1829,0x49e6af613c751},{1829,0x4a371a1a800db},{1829,0x5f0d408362a71},{1829,0x61edaec5f8ec6},{1829,0x655dc88857a94},{1829,0x6e012de7a93a3},{1829,0x731e0c298a89b},{1829,0x7d57c8ad4d28b},{1829,0x7f113c4c419a2},{1829,0x8beb826ca5a4a},{1829,0x901189f4c8f91},{1829,0x96b7c029cabe1},{1829,0xa1396353216ae},{1829,0xb74260af6593f},{1829,0xb8119d5e9dcf0},{1829,0xbb7e55c4eaaa7},{1829,0xc44ad444fcac1},{1829,0xcb81d18d9c8fc},{1829,0xcd1752c50eada},{1829,0xd3f7240c7116e},{1829,0xd5e3d14520af4},{1829,0xdeb04fc532b0d},{1829,0xdfe729b9ff152},{1829,0xe392f4d0b9647},{1829,0xe53a99f53ee6a},{1829,0xe77cce4544b27},{1829,0xf0494cc556b40},{1829,0xf5752d10b0e73},
{1830,0x80a919f2b7c3},{1830,0xdf207789f7be},{1830,0x1011497b3b707},{1830,0x18ebd3023f9c5},{1830,0x29e82c4bcbac9},{1830,0x2bf07a143f6d3},{1830,0x3eecaa6b8ef64},{1830,0x404f6ac3ee942},{1830,0x49e6af613c751},{1830,0x5c99fdd9bfa3a},{1830,0x5f0d408362a71},{1830,0x61edaec5f8ec6},{1830,0x63c77163e69b3},{1830,0x655dc88857a94},{1830,0x6c4de344489c2},{1830,0x708f9d0899e1f},{1830,0x731e0c298a89b},{1830,0x733dfe00398ef},{1830,0x75cec337f2705},{1830,0x76ec98994f488},{1830,0x7d57c8ad4d28b},{1830,0x901189f4c8f91},{1830,0x984c5bc4a2a41},{1830,0x9cde9e67df400},{1830,0xb225eb20c0406},{1830,0xb2613cb179dcb},{1830,0xb74260af6593f},{1830,0xb8119d5e9dcf0},{1830,0xc1e8b71e5f23d},{1830,0xc44ad444fcac1},{1830,0xcb81d18d9c8fc},{1830,0xcd1752c50eada},{1830,0xd5e3d14520af4},{1830,0xdeb04fc532b0d},{1830,0xdfe729b9ff152},{1830,0xe53a99f53ee6a},{1830,0xf0494cc556b40},{1830,0xf63ae79dc6459},{1830,0xfca36c06cf106},
{1831,0xdf207789f7be},{1831,0xe23e2a2d85e0},{1831,0x1011497b3b707},{1831,0x227dc40ebef6f},{1831,0x279b2c40fddb6},{1831,0x3a225b233265f},{1831,0x3b1005aa241e6},{1831,0x3eecaa6b8ef64},{1831,0x49e6af613c751},{1831,0x577d931075c39},{1831,0x5f0d408362a71},{1831,0x606adcf3d8837},{1831,0x61edaec5f8ec6},{1831,0x6c6d23afa41a7},{1831,0x708f9d0899e1f},{1831,0x71d6d4991235d},{1831,0x731e0c298a89b},{1831,0x76ec98994f488},{1831,0x7d57c8ad4d28b},{1831,0x819271ecb76c4},{1831,0x984c5bc4a2a41},{1831,0x9cde9e67df400},{1831,0xb2613cb179dcb},{1831,0xb8119d5e9dcf0},{1831,0xc44ad444fcac1},{1831,0xcb81d18d9c8fc},{1831,0xcbb0428aff938},{1831,0xd5e3d14520af4},{1831,0xe53a99f53ee6a},{1831,0xf0494cc556b40},{1831,0xf63ae79dc6459},{1831,0xfca36c06cf106},
{1832,0xe23e2a2d85e0},{1832,0x279b2c40fddb6},{1832,0x2bf07a143f6d3},{1832,0x3b1005aa241e6},{1832,0x3d19d0c8ef6fa},{1832,0x3d38e2f3907d1},{1832,0x3d6eee75ccc6f},{1832,0x3eecaa6b8ef64},{1832,0x426f5008f7623},{1832,0x467c7a64aac25},{1832,0x69375b73ea850},{1832,0x6c4de344489c2},{1832,0x6c6d23afa41a7},{1832,0x708f9d0899e1f},{1832,0x727a70614e5fc},{1832,0x731e0c298a89b},{1832,0x76ec98994f488},{1832,0x76f3b2daf3855},{1832,0x7d57c8ad4d28b},{1832,0x7e23f6095b28e},{1832,0x921f4c23e675e},{1832,0x9cde9e67df400},{1832,0xa68a21bd29fe0},{1832,0xb2613cb179dcb},{1832,0xb8119d5e9dcf0},{1832,0xc1e8b71e5f23d},{1832,0xc32638c9479f5},{1832,0xc44ad444fcac1},{1832,0xd8756e401f3d1},{1832,0xe0a71fcaafe19},{1832,0xe53a99f53ee6a},{1832,0xf0494cc556b40},{1832,0xfca36c06cf106},
{1833,0x25a30f20789e},{1833,0x2b29c7e43816},{1833,0x113a6a7336751},{1833,0x25ae62cb346d8},{1833,0x279b2c40fddb6},{1833,0x2a4b0992565bc},{1833,0x2bf07a143f6d3},{1833,0x370bd352d44ee},{1833,0x3d19d0c8ef6fa},{1833,0x3eecaa6b8ef64},{1833,0x437283b60affb},{1833,0x5d635b918cf7d},{1833,0x69375b73ea850},{1833,0x6c4de344489c2},{1833,0x6c6d23afa41a7},{1833,0x6cfc37986757d},{1833,0x708f9d0899e1f},{1833,0x731e0c298a89b},{1833,0x73c1a7f1c6b3a},{1833,0x76ec98994f488},{1833,0x7b7f23e51662a},{1833,0x7d57c8ad4d28b},{1833,0x7f2dd69b3657e},{1833,0x921f4c23e675e},{1833,0x940e49d4f0b52},{1833,0x97f10746ca1e3},{1833,0x9cde9e67df400},{1833,0xa68a21bd29fe0},{1833,0xacc0541ca09c8},{1833,0xb2613cb179dcb},{1833,0xb8119d5e9dcf0},{1833,0xc1e8b71e5f23d},{1833,0xc32638c9479f5},{1833,0xc44ad444fcac1},{1833,0xc7615c155ac32},{1833,0xccc1053757283},{1833,0xd8756e401f3d1},{1833,0xe0a71fcaafe19},{1833,0xeb2694b45b0fa},{1833,0xed32c4f4f89cf},{1833,0xee4a63bb313f5},{1833,0xfca36c06cf106},
{1834,0x25a30f20789e},{1834,0x3e9e676d961c},{1834,0x1001ec2685ae1},{1834,0x113a6a7336751},{1834,0x20a36daecb401},{1834,0x227ac709db3ab},{1834,0x25ae62cb346d8},{1834,0x279b2c40fddb6},{1834,0x34e444987b04f},{1834,0x3d19d0c8ef6fa},{1834,0x3eecaa6b8ef64},{1834,0x4772df1f8f794},{1834,0x51acdb4b8e758},{1834,0x54377fcdd8c25},{1834,0x5cdd3c327228a},{1834,0x5d35e72852ac7},{1834,0x69375b73ea850},{1834,0x6d5d921f6d104},{1834,0x73c1a7f1c6b3a},{1834,0x76ec98994f488},{1834,0x7b7f23e51662a},{1834,0x7d57c8ad4d28b},{1834,0x912a355f172b2},{1834,0x921f4c23e675e},{1834,0x97f10746ca1e3},{1834,0x9cde9e67df400},{1834,0x9d4c35c90d599},{1834,0xa68a21bd29fe0},{1834,0xacc0541ca09c8},{1834,0xb0b437f25de48},{1834,0xb10996a6d52c1},{1834,0xb2613cb179dcb},{1834,0xc32638c9479f5},{1834,0xc7615c155ac32},{1834,0xccc1053757283},{1834,0xeb2694b45b0fa},{1834,0xed032c2ab8eb7},{1834,0xf4a416d8253b6},{1834,0xfca36c06cf106},
{1835,0x3e9e676d961c},{1835,0x1001ec2685ae1},{1835,0x19317272fb766},{1835,0x20a36daecb401},{1835,0x223b831f01765},{1835,0x3587e060b72ee},{1835,0x3d19d0c8ef6fa},{1835,0x3eecaa6b8ef64},{1835,0x4d692503acdf6},{1835,0x51acdb4b8e758},{1835,0x5401286102c75},{1835,0x54377fcdd8c25},{1835,0x5cdd3c327228a},{1835,0x5d35e72852ac7},{1835,0x5efd5f47eb88d},{1835,0x67220314034d6},{1835,0x6d5d921f6d104},{1835,0x76ec98994f488},{1835,0x777e442b2c4f4},{1835,0x834c5e3fa94f8},{1835,0x846509a9f7819},{1835,0x912a355f172b2},{1835,0x921f4c23e675e},{1835,0x9d4c35c90d599},{1835,0x9def611436d4b},{1835,0xa68a21bd29fe0},{1835,0xacc0541ca09c8},{1835,0xb0b437f25de48},{1835,0xb2613cb179dcb},{1835,0xc7615c155ac32},{1835,0xccc1053757283},{1835,0xd4a7bebfa31aa},{1835,0xe202640e14e9c},{1835,0xe9d121418c19c},{1835,0xf0c64a31890ce},{1835,0xf4a416d8253b6},{1835,0xfca36c06cf106},
{1836,0x3e9e676d961c},{1836,0x166afc982f6c8},{1836,0x19317272fb766},{1836,0x2522a15c08352},{1836,0x3d19d0c8ef6fa},{1836,0x3e3787eb14e44},{1836,0x3eecaa6b8ef64},{1836,0x442b390f903af},{1836,0x480f0586255f7},{1836,0x4d692503acdf6},{1836,0x51505ad578db5},{1836,0x521de9ee795e8},{1836,0x54377fcdd8c25},{1836,0x58551d49bcff2},{1836,0x5d35e72852ac7},{1836,0x76ec98994f488},{1836,0x777e442b2c4f4},{1836,0x785485f89ac7d},{1836,0x834c5e3fa94f8},{1836,0x846509a9f7819},{1836,0x84cec82789629},{1836,0x912a355f172b2},{1836,0x921f4c23e675e},{1836,0x9f6fd02043893},{1836,0xa5ca2bac79319},{1836,0xa68a21bd29fe0},{1836,0xacc0541ca09c8},{1836,0xb2613cb179dcb},{1836,0xb271840620ab6},{1836,0xb368961acf263},{1836,0xb3d971656c2ab},{1836,0xba10d818fdafd},{1836,0xc7615c155ac32},{1836,0xc7ac1213c3a8c},{1836,0xc9dcb425cbe8e},{1836,0xd1040fe8b57af},{1836,0xd4a7bebfa31aa},{1836,0xd4b1e011b7d67},{1836,0xd74686c8e9828},{1836,0xdee1e70823569},{1836,0xe1761b234a69e},{1836,0xfca36c06cf106},
{1837,0x3e9e676d961c},{1837,0x41a89dd8f00b},{1837,0x6dc8ab3eb8b5},{1837,0x1176804bda8b8},{1837,0x1de067a633482},{1837,0x2815b7a36580c},{1837,0x2e1f81e04b307},{1837,0x34ebb03d5aeeb},{1837,0x3e3787eb14e44},{1837,0x3eecaa6b8ef64},{1837,0x479bdd5bb4671},{1837,0x480f0586255f7},{1837,0x521de9ee795e8},{1837,0x54377fcdd8c25},{1837,0x58551d49bcff2},{1837,0x5d35e72852ac7},{1837,0x76ec98994f488},{1837,0x777e442b2c4f4},{1837,0x785485f89ac7d},{1837,0x7a9377378e655},{1837,0x828ab8b32ecdd},{1837,0x834c5e3fa94f8},{1837,0x912a355f172b2},{1837,0x9f6fd02043893},{1837,0xa5ca2bac79319},{1837,0xa618121e7212e},{1837,0xacc0541ca09c8},{1837,0xb2613cb179dcb},{1837,0xb368961acf263},{1837,0xba10d818fdafd},{1837,0xc0b91a172c398},{1837,0xd74686c8e9828},{1837,0xdee1e70823569},{1837,0xe5f54ed0875ef},{1837,0xed798765a92bf},{1837,0xfca36c06cf106},
{1838,0x41a89dd8f00b},{1838,0x1176804bda8b8},{1838,0x2815b7a36580c},{1838,0x34dae358852a5},{1838,0x479bdd5bb4671},{1838,0x5634fa34439f0},{1838,0x5bf9fda17d95b},{1838,0x5c9ff6813e55f},{1838,0x5d35e72852ac7},{1838,0x611c84559c22e},{1838,0x76ec98994f488},{1838,0x777e442b2c4f4},{1838,0x7a9377378e655},{1838,0x834c5e3fa94f8},{1838,0x912a355f172b2},{1838,0x98c78e2214ff9},{1838,0xa1959afc6d05b},{1838,0xa618121e7212e},{1838,0xacc0541ca09c8},{1838,0xb368961acf263},{1838,0xba10d818fdafd},{1838,0xc09ec831af447},{1838,0xcecc0c5d3ddd8},{1838,0xd4a7bebfa31aa},{1838,0xd74686c8e9828},{1838,0xdb5a220fe6602},{1838,0xe5f54ed0875ef},{1838,0xed798765a92bf},{1838,0xfca36c06cf106},
{1839,0x41a89dd8f00b},{1839,0xef65afedbe05},{1839,0x1f0d24d560b38},{1839,0x24e8d737c5f0a},{1839,0x2784fb5bd62fa},{1839,0x300a43bf864b3},{1839,0x34211a1a6d309},{1839,0x34dae358852a5},{1839,0x433a4f950417d},{1839,0x5c9ff6813e55f},{1839,0x674a4fcc48965},{1839,0x7234714aa2b93},{1839,0x76ec98994f488},{1839,0x80d65aba590b7},{1839,0x834c5e3fa94f8},{1839,0x912a355f172b2},{1839,0x98c78e2214ff9},{1839,0x9a12c6e7aeb75},{1839,0xa50cbef373c0f},{1839,0xacc0541ca09c8},{1839,0xb368961acf263},{1839,0xba10d818fdafd},{1839,0xc09ec831af447},{1839,0xcecc0c5d3ddd8},{1839,0xd4a7bebfa31aa},{1839,0xd74686c8e9828},{1839,0xdb5a220fe6602},{1839,0xe4c3e94e3982c},{1839,0xe5f54ed0875ef},{1839,0xed798765a92bf},{1839,0xf34b5577a2543},{1839,0xfabbc63f35280},
{1840,0xae573660039},{1840,0x50c3ba89ca36},{1840,0xb232c521e90a},{1840,0x103cc91aa3e4c},{1840,0x1a1266ce8aa5f},{1840,0x1fcb3afee7c5f},{1840,0x250e554708789},{1840,0x2784fb5bd62fa},{1840,0x2f59ace32ba72},{1840,0x300a43bf864b3},{1840,0x433a4f950417d},{1840,0x4933766392b6e},{1840,0x4afcdeb757fe0},{1840,0x76ec98994f488},{1840,0x7b5172d7e99f0},{1840,0x7f65c1125fd91},{1840,0x80d65aba590b7},{1840,0x834c5e3fa94f8},{1840,0x912a355f172b2},{1840,0x98c78e2214ff9},{1840,0x9d739969ab5da},{1840,0xa2dc527b46930},{1840,0xba10d818fdafd},{1840,0xc09ec831af447},{1840,0xc26c6f8b2fa59},{1840,0xcecc0c5d3ddd8},{1840,0xd6ae16c850020},{1840,0xd74686c8e9828},{1840,0xe4c3e94e3982c},{1840,0xe4d7775f8623b},{1840,0xed798765a92bf},{1840,0xfabbc63f35280},
{1841,0xae573660039},{1841,0x50c3ba89ca36},{1841,0x103cc91aa3e4c},{1841,0x17f68977924e7},{1841,0x1873b04e7ba3f},{1841,0x1fcb3afee7c5f},{1841,0x21f1059e1b678},{1841,0x250e554708789},{1841,0x2784fb5bd62fa},{1841,0x29ee20493ee98},{1841,0x2f59ace32ba72},{1841,0x37136d401a10d},{1841,0x3869924823a07},{1841,0x3c26b38748150},{1841,0x433a4f950417d},{1841,0x442c4cf422f97},{1841,0x5f45e13676db6},{1841,0x6e00eedb8c8bb},{1841,0x7f65c1125fd91},{1841,0x80d65aba590b7},{1841,0x834c5e3fa94f8},{1841,0xa2dc527b46930},{1841,0xb8d42f6c42384},{1841,0xba10d818fdafd},{1841,0xc26c6f8b2fa59},{1841,0xcecc0c5d3ddd8},{1841,0xd4dd61db80c8a},{1841,0xd74686c8e9828},{1841,0xe4c3e94e3982c},{1841,0xe4d7775f8623b},{1841,0xfabbc63f35280},
{1842,0xae573660039},{1842,0x103cc91aa3e4c},{1842,0x1893de2b1777c},{1842,0x1f905e0ac98f4},{1842,0x1fcb3afee7c5f},{1842,0x21f1059e1b678},{1842,0x24e8d737c5f0a},{1842,0x250e554708789},{1842,0x2784fb5bd62fa},{1842,0x2dd6fff1bfdde},{1842,0x2f59ace32ba72},{1842,0x33145fff1c632},{1842,0x433a4f950417d},{1842,0x442c4cf422f97},{1842,0x554439e9298fc},{1842,0x589d9f384851c},{1842,0x5e05028ff74ab},{1842,0x6e00eedb8c8bb},{1842,0x6e230d05b76cd},{1842,0x77c8c1ac125e1},{1842,0x7f65c1125fd91},{1842,0x80d65aba590b7},{1842,0x834c5e3fa94f8},{1842,0x92f18cd6e6663},{1842,0xabcd3c054ab0a},{1842,0xba10d818fdafd},{1842,0xbf2b1582d23fc},{1842,0xc26c6f8b2fa59},{1842,0xc3d01de4c00ae},{1842,0xcecc0c5d3ddd8},{1842,0xcf7427bc41e9c},{1842,0xd4dd61db80c8a},{1842,0xd74686c8e9828},{1842,0xd9c7fad5bbb02},{1842,0xe4c3e94e3982c},{1842,0xe4d7775f8623b},{1842,0xea41e08a786c1},{1842,0xebb22fedd9f0e},{1842,0xefbfd7c6b7556},{1842,0xf995757a9e169},{1842,0xfa3ac702ca5da},{1842,0xfabbc63f35280},
{1843,0xae573660039},{1843,0x31060ab376a0},{1843,0x103cc91aa3e4c},{1843,0x1fcb3afee7c5f},{1843,0x21f1059e1b678},{1843,0x250e554708789},{1843,0x2784fb5bd62fa},{1843,0x2f59ace32ba72},{1843,0x3888a7c361fad},{1843,0x433a4f950417d},{1843,0x442c4cf422f97},{1843,0x4debf766a634c},{1843,0x554439e9298fc},{1843,0x5e05028ff74ab},{1843,0x65ad8f8f85035},{1843,0x6e00eedb8c8bb},{1843,0x7358086f5437b},{1843,0x7c4f8e3335b4c},{1843,0x7f65c1125fd91},{1843,0x834c5e3fa94f8},{1843,0x92c027ecb02ae},{1843,0x92f18cd6e6663},{1843,0xaabbdab24a7f5},{1843,0xabcd3c054ab0a},{1843,0xba10d818fdafd},{1843,0xc26c6f8b2fa59},{1843,0xd44a03997cc6d},{1843,0xd97081b66f857},{1843,0xd9c7fad5bbb02},{1843,0xda25cf8de406c},{1843,0xdf45f211fa997},{1843,0xe4c3e94e3982c},{1843,0xe4d7775f8623b},{1843,0xea41e08a786c1},{1843,0xea886eab761bc},{1843,0xefbfd7c6b7556},{1843,0xf53dcf02f63eb},{1843,0xf995757a9e169},{1843,0xfabbc63f35280},
{1844,0x31060ab376a0},{1844,0x103cc91aa3e4c},{1844,0x2784fb5bd62fa},{1844,0x2a5d48d92fc66},{1844,0x3888a7c361fad},{1844,0x433a4f950417d},{1844,0x442c4cf422f97},{1844,0x554439e9298fc},{1844,0x5e05028ff74ab},{1844,0x63c9968b10568},{1844,0x6e00eedb8c8bb},{1844,0x7358086f5437b},{1844,0x7c4f8e3335b4c},{1844,0x7f65c1125fd91},{1844,0x82e67a539818e},{1844,0x8eb00f91740f4},{1844,0x8ece6755493f7},{1844,0xabcd3c054ab0a},{1844,0xba10d818fdafd},{1844,0xbe6e32a6788e0},{1844,0xc0358a1e47c91},{1844,0xcaa2ddb438844},{1844,0xdd4d631a6f533},{1844,0xdf45f211fa997},{1844,0xe4c3e94e3982c},{1844,0xe4d7775f8623b},{1844,0xea41e08a786c1},{1844,0xea886eab761bc},{1844,0xef891f312840b},{1844,0xefbfd7c6b7556},{1844,0xf995757a9e169},
{1845,0xaa21f880349c},{1845,0xb596378d4d43},{1845,0x103cc91aa3e4c},{1845,0x2784fb5bd62fa},{1845,0x2a5d48d92fc66},{1845,0x2dfc3eb232e54},{1845,0x3888a7c361fad},{1845,0x442c4cf422f97},{1845,0x4f0b90ebd451e},{1845,0x554439e9298fc},{1845,0x57694cb645f86},{1845,0x5e05028ff74ab},{1845,0x697d5a24b61c7},{1845,0x6aef46b91ee2e},{1845,0x6e230d05b76cd},{1845,0x7358086f5437b},{1845,0x794cbfee2fd55},{1845,0x7c4f8e3335b4c},{1845,0x7f65c1125fd91},{1845,0x9fe6544a4fd5c},{1845,0xa37935f3b71c8},{1845,0xa852b5c4e1c57},{1845,0xabcd3c054ab0a},{1845,0xaec507065a663},{1845,0xb9182c3f0adcd},{1845,0xc0358a1e47c91},{1845,0xc1fce19617042},{1845,0xc9abd04725480},{1845,0xcaa2ddb438844},{1845,0xe4c3e94e3982c},{1845,0xea41e08a786c1},{1845,0xea886eab761bc},{1845,0xef891f312840b},{1845,0xf995757a9e169},
{1846,0x103cc91aa3e4c},{1846,0x10ac9b9de5b55},{1846,0x175a400e8233d},{1846,0x18269badfb0d9},{1846,0x2dfc3eb232e54},{1846,0x3888a7c361fad},{1846,0x405eab65007f3},{1846,0x420252069cf68},{1846,0x43d478d605448},{1846,0x529a3fdb72c80},{1846,0x5525e672b44d0},{1846,0x56d4d38c6c8af},{1846,0x58eab3d8c8e81},{1846,0x5e05028ff74ab},{1846,0x697d5a24b61c7},{1846,0x6f01a9805273e},{1846,0x7358086f5437b},{1846,0x7895e69669fe7},{1846,0x7c4f8e3335b4c},{1846,0x8fe462137668a},{1846,0x913c57fed7fce},{1846,0x9fe6544a4fd5c},{1846,0xa37935f3b71c8},{1846,0xa852b5c4e1c57},{1846,0xabcd3c054ab0a},{1846,0xb9182c3f0adcd},{1846,0xc1fce19617042},{1846,0xc537617ae2f8c},{1846,0xc9abd04725480},{1846,0xcaa2ddb438844},{1846,0xe4c3e94e3982c},{1846,0xe58fb6f247a16},{1846,0xea886eab761bc},{1846,0xef891f312840b},{1846,0xf1cc8574b9ec0},{1846,0xf995757a9e169},
{1847,0x7f595a34796f},{1847,0x103cc91aa3e4c},{1847,0x18269badfb0d9},{1847,0x1d853b1ddd3ea},{1847,0x2857a1b8ae843},{1847,0x2ea2925d20032},{1847,0x34c3a6b139931},{1847,0x3888a7c361fad},{1847,0x420252069cf68},{1847,0x43d478d605448},{1847,0x4d9ee2c6259e7},{1847,0x56d4d38c6c8af},{1847,0x5740dc355bf60},{1847,0x5b7ef5327eef5},{1847,0x602916d89153b},{1847,0x68baba52f500e},{1847,0x7358086f5437b},{1847,0x7c4f8e3335b4c},{1847,0x8fe462137668a},{1847,0x99aecc0396c29},{1847,0xa37935f3b71c8},{1847,0xa9e2c96745fb5},{1847,0xb591611a4528e},{1847,0xb6e691783af7b},{1847,0xb70e09d3f7d06},{1847,0xb9182c3f0adcd},{1847,0xc675035c7ed8e},{1847,0xcaa2ddb438844},{1847,0xd6037540c2ba1},{1847,0xe08e011780bed},{1847,0xe591e725069b4},{1847,0xec4d037764bcb},{1847,0xef891f312840b},{1847,0xfd30f543bfad4},
{1848,0x2ea2925d20032},{1848,0x342089995eec7},{1848,0x34c3a6b139931},{1848,0x4191129273992},{1848,0x420252069cf68},{1848,0x48b9adce15717},{1848,0x4ed21deeb93b8},{1848,0x5740dc355bf60},{1848,0x5760c98e5a9dc},{1848,0x5b7ef5327eef5},{1848,0x602916d89153b},{1848,0x8619f823560eb},{1848,0x883b3bcb6f542},{1848,0x8a4b90b8c4e61},{1848,0x8fe462137668a},{1848,0x99aecc0396c29},{1848,0x9e9400fba6ef9},{1848,0xa37935f3b71c8},{1848,0xa9e2c96745fb5},{1848,0xad439fe3d7767},{1848,0xb2717506e75d9},{1848,0xb591611a4528e},{1848,0xb70e09d3f7d06},{1848,0xb9182c3f0adcd},{1848,0xc675035c7ed8e},{1848,0xc9abd04725480},{1848,0xd6037540c2ba1},{1848,0xe08e011780bed},{1848,0xef58e8a419421},{1848,0xef891f312840b},
{1849,0x83aca7cc8dd5},{1849,0x109d00e1d1d77},{1849,0x132cbe2fe5749},{1849,0x1e0b622c774d0},{1849,0x203f1eb354c8e},{1849,0x2ea2925d20032},{1849,0x3a7302561bee3},{1849,0x3eba5825ec9f5},{1849,0x4191129273992},{1849,0x420252069cf68},{1849,0x48b9adce15717},{1849,0x4a18668a5a91b},{1849,0x52e5f448d6a68},{1849,0x5740dc355bf60},{1849,0x5b7ef5327eef5},{1849,0x5dd4060588218},{1849,0x72852443155ad},{1849,0x73db9939ce4a8},{1849,0x7bc9d990710fb},{1849,0x883b3bcb6f542},{1849,0x8a4b90b8c4e61},{1849,0x8fe462137668a},{1849,0x9076563e409f0},{1849,0x94c9970b8695a},{1849,0x99aecc0396c29},{1849,0x9e9400fba6ef9},{1849,0xa1b1de7be7e17},{1849,0xa37935f3b71c8},{1849,0xa85e6aebc7498},{1849,0xb2717506e75d9},{1849,0xb591611a4528e},{1849,0xc4945dbca04a6},{1849,0xc675035c7ed8e},{1849,0xc9abd04725480},{1849,0xca1254f8df33b},{1849,0xcdb00877a881d},{1849,0xd46d47a458de3},{1849,0xd6037540c2ba1},{1849,0xef58e8a419421},{1849,0xef891f312840b},{1849,0xfd28be1bf3135},
{1850,0xc01d725f474a},{1850,0x109d00e1d1d77},{1850,0x1e0b622c774d0},{1850,0x203f1eb354c8e},{1850,0x2ea2925d20032},{1850,0x347c6640b51d3},{1850,0x3a7302561bee3},{1850,0x3aa61f30e9a18},{1850,0x4357826492c55},{1850,0x5740dc355bf60},{1850,0x5b7ef5327eef5},{1850,0x658e3ab795204},{1850,0x72852443155ad},{1850,0x73db9939ce4a8},{1850,0x744e90c6994d5},{1850,0x76723bae81a5e},{1850,0x7bc9d990710fb},{1850,0x9076563e409f0},{1850,0x94c9970b8695a},{1850,0x95feb79a5663c},{1850,0x99aecc0396c29},{1850,0x9e9400fba6ef9},{1850,0xa1b1de7be7e17},{1850,0xa37935f3b71c8},{1850,0xad111342b2f38},{1850,0xb591611a4528e},{1850,0xbf16668061611},{1850,0xcf5f3c3f260d2},{1850,0xd07e7a022dd83},{1850,0xd46d47a458de3},{1850,0xd6037540c2ba1},{1850,0xef58e8a419421},{1850,0xfd28be1bf3135},
{1851,0x401e1ec3a715},{1851,0x61e563481a75},{1851,0x9261f853ff15},{1851,0xc01d725f474a},{1851,0x109d00e1d1d77},{1851,0x203f1eb354c8e},{1851,0x2ea2925d20032},{1851,0x347c6640b51d3},{1851,0x3a7302561bee3},{1851,0x3dc969760e8a8},{1851,0x48f37db322cbc},{1851,0x5740dc355bf60},{1851,0x5984747642f65},{1851,0x5b7ef5327eef5},{1851,0x658e3ab795204},{1851,0x6f2684acbd2ca},{1851,0x73db9939ce4a8},{1851,0x7790f0ffe2a3b},{1851,0x8228f7bc0774c},{1851,0x8cad7bd2aabfb},{1851,0x9202c2b8eeaef},{1851,0x95feb79a5663c},{1851,0x99aecc0396c29},{1851,0x9e9400fba6ef9},{1851,0xa37935f3b71c8},{1851,0xa6400a464f033},{1851,0xb1587889b6bce},{1851,0xb591611a4528e},{1851,0xcf5f3c3f260d2},{1851,0xd07e7a022dd83},{1851,0xd6037540c2ba1},{1851,0xdee7f54f39913},{1851,0xef58e8a419421},{1851,0xf6020edad67e3},
{1852,0x401e1ec3a715},{1852,0x4e9da004059c},{1852,0x109d00e1d1d77},{1852,0x1e0b622c774d0},{1852,0x20ff32caa77ae},{1852,0x2354439db0ad1},{1852,0x2ea2925d20032},{1852,0x347c6640b51d3},{1852,0x40f417e2795b8},{1852,0x5740dc355bf60},{1852,0x599cfc713efe4},{1852,0x5e678b76788b2},{1852,0x658e3ab795204},{1852,0x66e9829e6e21d},{1852,0x69219258236ad},{1852,0x6988339e2e066},{1852,0x6cb4e9f8b1b56},{1852,0x73db9939ce4a8},{1852,0x7b02487aeadfa},{1852,0x8aff2d1b663bb},{1852,0x8cad7bd2aabfb},{1852,0x8f18ad16efa45},{1852,0x95feb79a5663c},{1852,0xa37935f3b71c8},{1852,0xad111342b2f38},{1852,0xb1587889b6bce},{1852,0xb4951feecfb62},{1852,0xb591611a4528e},{1852,0xceba99610fabc},{1852,0xde8926676168c},{1852,0xea10d094805c3},{1852,0xf493ebcdd0c6c},{1852,0xf995667b64c8c},{1852,0xf9fbfcce683b0},
{1853,0x4e9da004059c},{1853,0x93b02d35c8df},{1853,0xe9027559e7f5},{1853,0x109d00e1d1d77},{1853,0x1e0b622c774d0},{1853,0x20ff32caa77ae},{1853,0x2354439db0ad1},{1853,0x2ea2925d20032},{1853,0x347c6640b51d3},{1853,0x41ccce720636a},{1853,0x441fc7672f80b},{1853,0x4c1f664e17cad},{1853,0x4d7448cd4b5ec},{1853,0x4f024cef7191c},{1853,0x5e678b76788b2},{1853,0x5fbdc9ae0dac7},{1853,0x61fae31706d5b},{1853,0x658e3ab795204},{1853,0x69219258236ad},{1853,0x6cb4e9f8b1b56},{1853,0x704841993ffff},{1853,0x894fa6fd2409e},{1853,0x8cad7bd2aabfb},{1853,0x95feb79a5663c},{1853,0xa37935f3b71c8},{1853,0xad111342b2f38},{1853,0xaf91d0997cf48},{1853,0xb1587889b6bce},{1853,0xb2141064bd84e},{1853,0xb4951feecfb62},{1853,0xba43ef00dbe64},{1853,0xc8acb52b10776},{1853,0xceba99610fabc},{1853,0xde8926676168c},{1853,0xe940800fcc206},{1853,0xf06722c83cdd1},{1853,0xf9fbfcce683b0},{1853,0xff8e059e8fd9c},
{1854,0x5265011cbcc4},{1854,0x661e4bd8a8e1},{1854,0x6a573469374d},{1854,0x109d00e1d1d77},{1854,0x1edbb48a08d59},{1854,0x347c6640b51d3},{1854,0x406cfad0678e0},{1854,0x40b089597074c},{1854,0x41ccce720636a},{1854,0x441fc7672f80b},{1854,0x4a1d17f76164d},{1854,0x4d7448cd4b5ec},{1854,0x4f024cef7191c},{1854,0x53ad8494cdab7},{1854,0x63903f146356f},{1854,0x658e3ab795204},{1854,0x69219258236ad},{1854,0x6cb4e9f8b1b56},{1854,0x6d9c09b283b79},{1854,0x71b98033d0e14},{1854,0x776ef0da5c951},{1854,0x7837d2865e8d4},{1854,0x7aff2df5565b7},{1854,0x894fa6fd2409e},{1854,0x8cad7bd2aabfb},{1854,0x8ede7328409ec},{1854,0x95feb79a5663c},{1854,0xa96459d6fd136},{1854,0xb1587889b6bce},{1854,0xb54dd2913c422},{1854,0xb919e7aa63642},{1854,0xba43ef00dbe64},{1854,0xc8acb52b10776},{1854,0xcc668ab41ea78},{1854,0xceba99610fabc},{1854,0xd4939b8a70dea},{1854,0xd611c3533ba2e},{1854,0xde8926676168c},{1854,0xe940800fcc206},{1854,0xf06722c83cdd1},
{1855,0x5265011cbcc4},{1855,0x661e4bd8a8e1},{1855,0x6a573469374d},{1855,0x78bb3083076d},{1855,0xc2aac09afd83},{1855,0x109d00e1d1d77},{1855,0x1edbb48a08d59},{1855,0x29ac0d655ef96},{1855,0x347c6640b51d3},{1855,0x406cfad0678e0},{1855,0x40b089597074c},{1855,0x441fc7672f80b},{1855,0x53ad8494cdab7},{1855,0x63903f146356f},{1855,0x658e3ab795204},{1855,0x69219258236ad},{1855,0x6989a197b27fe},{1855,0x6bdeb26abbb21},{1855,0x6d9c09b283b79},{1855,0x776ef0da5c951},{1855,0x7837d2865e8d4},{1855,0x83dc1be713a28},{1855,0x8aff2d1b663bb},{1855,0x8cad7bd2aabfb},{1855,0x95feb79a5663c},{1855,0xa821534d99250},{1855,0xb54dd2913c422},{1855,0xba43ef00dbe64},{1855,0xbef1c9657a685},{1855,0xc212b611f6e99},{1855,0xc3553cda7d46e},{1855,0xc3ea4085b987f},{1855,0xc55371a105ac8},{1855,0xca5956f015dcd},{1855,0xcc668ab41ea78},{1855,0xceba99610fabc},{1855,0xd611c3533ba2e},{1855,0xde8926676168c},{1855,0xe45b4b17bbf36},{1855,0xf06722c83cdd1},{1855,0xf0abc21aa42a0},
{1856,0x5265011cbcc4},{1856,0xc1459f501272},{1856,0xc2aac09afd83},{1856,0x1edbb48a08d59},{1856,0x2f1439d30a0b4},{1856,0x347c6640b51d3},{1856,0x406cfad0678e0},{1856,0x441fc7672f80b},{1856,0x54ed70d2b788a},{1856,0x5de04d788484f},{1856,0x653ce0d968bc6},{1856,0x658e3ab795204},{1856,0x69219258236ad},{1856,0x6989a197b27fe},{1856,0x6bdeb26abbb21},{1856,0x6d9c09b283b79},{1856,0x7532f5b6e07ad},{1856,0x96f4cb023c99e},{1856,0xa821534d99250},{1856,0xae498ecf0d405},{1856,0xb132a1273a85a},{1856,0xb54dd2913c422},{1856,0xba43ef00dbe64},{1856,0xbecc95edac969},{1856,0xbef1c9657a685},{1856,0xc212b611f6e99},{1856,0xc3553cda7d46e},{1856,0xc9526cf36499e},{1856,0xcc668ab41ea78},{1856,0xceba99610fabc},{1856,0xd577d88dc0082},{1856,0xd611c3533ba2e},{1856,0xde8926676168c},{1856,0xe3354c047fcb9},{1856,0xe45b4b17bbf36},{1856,0xefbe3e71a69c3},{1856,0xf06722c83cdd1},
{1857,0x5265011cbcc4},{1857,0xc1459f501272},{1857,0x1edbb48a08d59},{1857,0x2391a8dc9e9e4},{1857,0x2f1439d30a0b4},{1857,0x347c6640b51d3},{1857,0x39e492ae602f1},{1857,0x406cfad0678e0},{1857,0x40c16cfbb2ae7},{1857,0x4ab449fff9683},{1857,0x5de04d788484f},{1857,0x653ce0d968bc6},{1857,0x658e3ab795204},{1857,0x67b4cb67bf370},{1857,0x6989a197b27fe},{1857,0x6d9c09b283b79},{1857,0x7ee7699a0cdb8},{1857,0x9548293d37347},{1857,0x959a24350d2a3},{1857,0x96f4cb023c99e},{1857,0x982ef2146a6ba},{1857,0xae498ecf0d405},{1857,0xb132a1273a85a},{1857,0xb4a4ee3aa6014},{1857,0xb54dd2913c422},{1857,0xb5bb48140b35f},{1857,0xb7f163eb9545a},{1857,0xba43ef00dbe64},{1857,0xbecc95edac969},{1857,0xc212b611f6e99},{1857,0xc3553cda7d46e},{1857,0xc5a60db285342},{1857,0xc7dde3c74df73},{1857,0xc9526cf36499e},{1857,0xcc668ab41ea78},{1857,0xd611c3533ba2e},{1857,0xe3354c047fcb9},{1857,0xe45b4b17bbf36},{1857,0xeacfe478e5be5},{1857,0xf06722c83cdd1},{1857,0xfdbde2ddef1fc},
{1858,0x4aac642d0b23},{1858,0x5265011cbcc4},{1858,0x651011b48546},{1858,0x1386b8bd771e0},{1858,0x17571ddf6c813},{1858,0x39e492ae602f1},{1858,0x406cfad0678e0},{1858,0x40c16cfbb2ae7},{1858,0x4f35570c1bce4},{1858,0x5de04d788484f},{1858,0x658e3ab795204},{1858,0x6989a197b27fe},{1858,0x741710beb6b7b},{1858,0x7c2f2f5dfe69d},{1858,0x9340b0aab5e6d},{1858,0x959a24350d2a3},{1858,0x96f4cb023c99e},{1858,0x9777d5f00a9f8},{1858,0xabd66d238209e},{1858,0xb3c5578fbdbf5},{1858,0xb7f163eb9545a},{1858,0xba43ef00dbe64},{1858,0xbecc95edac969},{1858,0xbef1c9657a685},{1858,0xc110e96414eec},{1858,0xc212b611f6e99},{1858,0xc3553cda7d46e},{1858,0xc7dde3c74df73},{1858,0xc9526cf36499e},{1858,0xe3354c047fcb9},{1858,0xeacfe478e5be5},{1858,0xec9ccea70b9e8},{1858,0xf55eba04d4249},{1858,0xfe3ccb0dcd4dc},
{1859,0x4aac642d0b23},{1859,0x5265011cbcc4},{1859,0x651011b48546},{1859,0xae1c387eb2de},{1859,0x17571ddf6c813},{1859,0x1984e7454336a},{1859,0x39e492ae602f1},{1859,0x3e882d2a94cef},{1859,0x406cfad0678e0},{1859,0x4907a83af402c},{1859,0x4e4f1300eb35e},{1859,0x50eb474513e3e},{1859,0x56fdd1b68b736},{1859,0x5722448a2e5f9},{1859,0x5de04d788484f},{1859,0x658e3ab795204},{1859,0x6989a197b27fe},{1859,0x7c2f2f5dfe69d},{1859,0x9340b0aab5e6d},{1859,0x959a24350d2a3},{1859,0xa362c58c71914},{1859,0xaa28cd07656ac},{1859,0xabd66d238209e},{1859,0xac392deb39559},{1859,0xb17d61dbabee1},{1859,0xb3c5578fbdbf5},{1859,0xbecc95edac969},{1859,0xbef1c9657a685},{1859,0xc3553cda7d46e},{1859,0xc9526cf36499e},{1859,0xcb35de911bdcb},{1859,0xe3354c047fcb9},{1859,0xefa3468eb4c2f},{1859,0xf6d0029229b56},
{1860,0x1c27581dd914},{1860,0x4aac642d0b23},{1860,0x5265011cbcc4},{1860,0x651011b48546},{1860,0xae1c387eb2de},{1860,0x17571ddf6c813},{1860,0x29bab1895b811},{1860,0x39e492ae602f1},{1860,0x406cfad0678e0},{1860,0x45fd79222cf60},{1860,0x4871323275d14},{1860,0x4907a83af402c},{1860,0x4e885b94a75ae},{1860,0x56fdd1b68b736},{1860,0x5722448a2e5f9},{1860,0x65280597b8fa9},{1860,0x658e3ab795204},{1860,0x6989a197b27fe},{1860,0x6b2473a27374c},{1860,0x7206afdae2ccf},{1860,0x73f00923a83ee},{1860,0x90e739f535f60},{1860,0x948b1604d030d},{1860,0x959a24350d2a3},{1860,0xb17d61dbabee1},{1860,0xbac5cd6f4ef7b},{1860,0xbecc95edac969},{1860,0xc3ff0a1429a0c},{1860,0xc9526cf36499e},{1860,0xcb35de911bdcb},{1860,0xcb62cdd73884a},{1860,0xd1b2eb15359e1},{1860,0xdae1eeb813b7b},{1860,0xe10d06eeb93d9},
{1861,0x1c27581dd914},{1861,0x4aac642d0b23},{1861,0x5265011cbcc4},{1861,0x15f18fa4b4ec1},{1861,0x17571ddf6c813},{1861,0x18aa91de8d153},{1861,0x1b5cc0d0f30b8},{1861,0x273584ec38d91},{1861,0x380f5230a9f52},{1861,0x39e492ae602f1},{1861,0x406cfad0678e0},{1861,0x50ccaf0b0fb31},{1861,0x626da8345e116},{1861,0x65280597b8fa9},{1861,0x658e3ab795204},{1861,0x82a3b042cc59e},{1861,0x88eecc379250e},{1861,0x8cb50df154435},{1861,0x948b1604d030d},{1861,0x959a24350d2a3},{1861,0xa302accf22c1d},{1861,0xa6f10d399a03f},{1861,0xafe07a4af606c},{1861,0xb52ae5ca75547},{1861,0xbac5cd6f4ef7b},{1861,0xc110e96414eec},{1861,0xc275b7e5f5fbb},{1861,0xd1b2eb15359e1},{1861,0xd36e0df040095},{1861,0xe10d06eeb93d9},{1861,0xf4ff3012a1738},{1861,0xf8026f67cfbe2},{1861,0xf9330690978c9},{1861,0xfe0d5b11b57b2},
{1862,0x1c27581dd914},{1862,0x4aac642d0b23},{1862,0x1421eaf1bc64e},{1862,0x162d27321adfb},{1862,0x17571ddf6c813},{1862,0x18aa91de8d153},{1862,0x1b5cc0d0f30b8},{1862,0x273584ec38d91},{1862,0x2b0c0be299c0f},{1862,0x39e492ae602f1},{1862,0x3e1948bcd2eb7},{1862,0x408b7d35cefbf},{1862,0x59fffe453e106},{1862,0x5d2ce55747a18},{1862,0x626da8345e116},{1862,0x6428ac7cdd8b2},{1862,0x65280597b8fa9},{1862,0x6b2ed8ac03282},{1862,0x7a55300ed7936},{1862,0x8cb50df154435},{1862,0x9d7e549a6734c},{1862,0xa302accf22c1d},{1862,0xa31a8643391c1},{1862,0xa3ddb1129f73c},{1862,0xa6f10d399a03f},{1862,0xaeae2936a1431},{1862,0xafe07a4af606c},{1862,0xb52ae5ca75547},{1862,0xb9f98ce0d0f4e},{1862,0xbac5cd6f4ef7b},{1862,0xd1b2eb15359e1},{1862,0xd36e0df040095},{1862,0xdbffce3f22119},{1862,0xf4ff3012a1738},{1862,0xfb366acfc65c0},
{1863,0x4a2e06fe26d},{1863,0x83c449678c85},{1863,0xa10f5b5d257b},{1863,0x1258db00b5cc1},{1863,0x1421eaf1bc64e},{1863,0x17571ddf6c813},{1863,0x18aa91de8d153},{1863,0x1b5cc0d0f30b8},{1863,0x273584ec38d91},{1863,0x2acd2d91cfd67},{1863,0x2f93272b84ee5},{1863,0x36b2251718e17},{1863,0x3e1948bcd2eb7},{1863,0x423312e254f59},{1863,0x462ec541f8e9d},{1863,0x5d2ce55747a18},{1863,0x626da8345e116},{1863,0x65280597b8fa9},{1863,0x659e9d8df4892},{1863,0x67941f92d3848},{1863,0x7a55300ed7936},{1863,0x8db5f3cfb31fa},{1863,0x9a8d7ebf13459},{1863,0xa622048907cbe},{1863,0xa90136d686e74},{1863,0xafe07a4af606c},{1863,0xb2774d3b5a314},{1863,0xb4781ead1989e},{1863,0xb9f98ce0d0f4e},{1863,0xbac5cd6f4ef7b},{1863,0xc93ec25684542},{1863,0xd1b2eb15359e1},{1863,0xd8ec6cb334bc5},{1863,0xda741b8cdab4d},{1863,0xdafe1c1f8aa9e},{1863,0xea996a67dccf1},{1863,0xf4ff3012a1738},{1863,0xfaeeaa38e474c},{1863,0xfb366acfc65c0},
{1864,0x4a2e06fe26d},{1864,0x27a7a24e76c8},{1864,0xafec5b3f5398},{1864,0xdb75cc001071},{1864,0x1258db00b5cc1},{1864,0x1421eaf1bc64e},{1864,0x17571ddf6c813},{1864,0x17b8e4c158d0b},{1864,0x18aa91de8d153},{1864,0x1b5cc0d0f30b8},{1864,0x273584ec38d91},{1864,0x283911dec45bc},{1864,0x2defab703cb94},{1864,0x2f93272b84ee5},{1864,0x36b2251718e17},{1864,0x3e1948bcd2eb7},{1864,0x407daf2f73ca5},{1864,0x41787031e3480},{1864,0x423312e254f59},{1864,0x462ec541f8e9d},{1864,0x4e27fa20786b6},{1864,0x542788a314a32},{1864,0x55ab656cd8f23},{1864,0x5d21f7bd62186},{1864,0x626da8345e116},{1864,0x68fe8c8e19e27},{1864,0x7a55300ed7936},{1864,0x81809a8de27bd},{1864,0x98880fc295baf},{1864,0xaf335262a92c8},{1864,0xafe07a4af606c},{1864,0xb2774d3b5a314},{1864,0xb4781ead1989e},{1864,0xb9f98ce0d0f4e},{1864,0xc93ec25684542},{1864,0xd8ec6cb334bc5},{1864,0xda741b8cdab4d},{1864,0xdafe1c1f8aa9e},{1864,0xdc9fd7c537894},{1864,0xdf1ef93492e3d},{1864,0xe34c9c537f705},{1864,0xea996a67dccf1},{1864,0xfaeeaa38e474c},{1864,0xfb366acfc65c0},
{1865,0x4a2e06fe26d},{1865,0x27a7a24e76c8},{1865,0x5e1ac0175b92},{1865,0xdb75cc001071},{1865,0x1421eaf1bc64e},{1865,0x17571ddf6c813},{1865,0x18aa91de8d153},{1865,0x1b5cc0d0f30b8},{1865,0x273584ec38d91},{1865,0x2c10205d37989},{1865,0x2ef3d501a8dd4},{1865,0x2f93272b84ee5},{1865,0x36b2251718e17},{1865,0x3ae644cdf796d},{1865,0x3e1948bcd2eb7},{1865,0x3e70752c88e5a},{1865,0x41787031e3480},{1865,0x423312e254f59},{1865,0x462ec541f8e9d},{1865,0x4c8aaf0941588},{1865,0x5889e0dcb3b51},{1865,0x5d2ce55747a18},{1865,0x61aa9eaa32c8b},{1865,0x68fe8c8e19e27},{1865,0x6d5f24c9ec6dd},{1865,0x78bbea1aa457f},{1865,0x7a55300ed7936},{1865,0x81a1fe2334f22},{1865,0xa3ddb1129f73c},{1865,0xabed71a79b9de},{1865,0xaed0e6312b81e},{1865,0xafe07a4af606c},{1865,0xb4781ead1989e},{1865,0xc5de9502bc9e1},{1865,0xc93ec25684542},{1865,0xcf829ef74c586},{1865,0xd081d31f2b52b},{1865,0xda741b8cdab4d},{1865,0xdf1ef93492e3d},{1865,0xe610c37b0c1ec},{1865,0xe6f3035dae1fb},{1865,0xea996a67dccf1},{1865,0xfaeeaa38e474c},{1865,0xff081c1424f8d},
{1866,0x4a2e06fe26d},{1866,0x66a8eaba3a85},{1866,0xdb75cc001071},{1866,0x17571ddf6c813},{1866,0x1b5cc0d0f30b8},{1866,0x2ef3d501a8dd4},{1866,0x2f93272b84ee5},{1866,0x318748ac5ead5},{1866,0x36b2251718e17},{1866,0x36d4a968754a5},{1866,0x3e1948bcd2eb7},{1866,0x440646676c4d4},{1866,0x4aff5c0a1f572},{1866,0x5bddb0003b85b},{1866,0x5d2ce55747a18},{1866,0x6d053db54b187},{1866,0x78bbea1aa457f},{1866,0x7a55300ed7936},{1866,0x88d282023095b},{1866,0x8fa550f8a2bc6},{1866,0x9fc2e5a1cc619},{1866,0xabed71a79b9de},{1866,0xaed0e6312b81e},{1866,0xafe07a4af606c},{1866,0xb4781ead1989e},{1866,0xb61db44588e0a},{1866,0xc93ec25684542},{1866,0xcf6580daf8ad3},{1866,0xcf829ef74c586},{1866,0xda741b8cdab4d},{1866,0xe01dbb58027e1},{1866,0xe51fcfd896c80},{1866,0xea996a67dccf1},{1866,0xfaeeaa38e474c},
{1867,0x3b032a94170f},{1867,0x66a8eaba3a85},{1867,0xdb75cc001071},{1867,0xf8a9045185ec},{1867,0x1b8f6bb7b9b89},{1867,0x2f93272b84ee5},{1867,0x33b5f6e81d865},{1867,0x36b2251718e17},{1867,0x440646676c4d4},{1867,0x458a628dad120},{1867,0x463be61e014f9},{1867,0x4aff5c0a1f572},{1867,0x5bddb0003b85b},{1867,0x62c78f48ff66c},{1867,0x6d053db54b187},{1867,0x6f61faf04b854},{1867,0x7881fc89c03bb},{1867,0x796b964c4be79},{1867,0x88d282023095b},{1867,0x95fbf76679df3},{1867,0x981945a46884c},{1867,0x9fc2e5a1cc619},{1867,0xabed71a79b9de},{1867,0xacfdb2ac142a3},{1867,0xafba7ff3b72db},{1867,0xb4781ead1989e},{1867,0xba5c8eb4d0070},{1867,0xc93ec25684542},{1867,0xcaa20aeedaa5a},{1867,0xcf6580daf8ad3},{1867,0xcf829ef74c586},{1867,0xd01ba39d49512},{1867,0xd8596734f3623},{1867,0xda741b8cdab4d},{1867,0xe01dbb58027e1},{1867,0xe6734d604d116},{1867,0xeac7dca807ea2},{1867,0xfaeeaa38e474c},
{1868,0x3b032a94170f},{1868,0x66a8eaba3a85},{1868,0xf8a9045185ec},{1868,0x1b8f6bb7b9b89},{1868,0x20f1b03d58917},{1868,0x25868a63c503c},{1868,0x29320a9017817},{1868,0x36a82eebf8c4e},{1868,0x3ae644cdf796d},{1868,0x440646676c4d4},{1868,0x458a628dad120},{1868,0x475a1701d3276},{1868,0x4aff5c0a1f572},{1868,0x5219e71930dc1},{1868,0x62c78f48ff66c},{1868,0x6f61faf04b854},{1868,0x7881fc89c03bb},{1868,0x7db2e5e519a32},{1868,0x7f87bc4f79173},{1868,0x9fc2e5a1cc619},{1868,0xa3ddb1129f73c},{1868,0xa648b228c1075},{1868,0xabed71a79b9de},{1868,0xaedb1cc0f1edc},{1868,0xb4781ead1989e},{1868,0xba5c8eb4d0070},{1868,0xcaa20aeedaa5a},{1868,0xcf6580daf8ad3},{1868,0xd01ba39d49512},{1868,0xd8596734f3623},{1868,0xdd253dcfaa214},{1868,0xe01dbb58027e1},{1868,0xe609699b2273e},{1868,0xe6734d604d116},{1868,0xeac7dca807ea2},{1868,0xf4866f39796c0},
{1869,0x3b032a94170f},{1869,0x66a8eaba3a85},{1869,0xdecccdf5befb},{1869,0x20f1b03d58917},{1869,0x2260bb23e89d0},{1869,0x3ae644cdf796d},{1869,0x41e5636c7608e},{1869,0x440646676c4d4},{1869,0x4aff5c0a1f572},{1869,0x5219e71930dc1},{1869,0x5b1cf0b348fc5},{1869,0x62c78f48ff66c},{1869,0x77c96c3a09130},{1869,0x7de91ad77658a},{1869,0x7f87bc4f79173},{1869,0x87460c64e91b6},{1869,0x9507d80147609},{1869,0x9fc2e5a1cc619},{1869,0xa49d6e54a63c1},{1869,0xaab95f35abd20},{1869,0xaedb1cc0f1edc},{1869,0xb4781ead1989e},{1869,0xc1e0001eee8f8},{1869,0xc9305f83f457a},{1869,0xcaa20aeedaa5a},{1869,0xcf6580daf8ad3},{1869,0xd4e4e37ceb314},{1869,0xdd253dcfaa214},{1869,0xdf920fc912c7d},{1869,0xe3f68d3bd905b},{1869,0xe609699b2273e},{1869,0xe6734d604d116},{1869,0xeb072282bcbb2},{1869,0xf4866f39796c0},
{1870,0x3b032a94170f},{1870,0x66a8eaba3a85},{1870,0xdecccdf5befb},{1870,0x1b857d9a7ec39},{1870,0x20f1b03d58917},{1870,0x2260bb23e89d0},{1870,0x2855d783e454c},{1870,0x2c106bbc9f83a},{1870,0x300359fc4665e},{1870,0x440646676c4d4},{1870,0x4aff5c0a1f572},{1870,0x5111dbced8fe1},{1870,0x5424a8129170a},{1870,0x608c21def3721},{1870,0x62c78f48ff66c},{1870,0x662491d730233},{1870,0x6c870f3459d6e},{1870,0x6d5256816109c},{1870,0x77c96c3a09130},{1870,0x7f87bc4f79173},{1870,0x7fc2fc79c95f2},{1870,0x9507d80147609},{1870,0x99309cc247f14},{1870,0x9e80fca53927f},{1870,0xb4781ead1989e},{1870,0xbaadb512433bd},{1870,0xc1e0001eee8f8},{1870,0xc9838e239b4f0},{1870,0xcfbfa097eb228},{1870,0xd7d1d67220b48},{1870,0xdf920fc912c7d},{1870,0xe3f68d3bd905b},{1870,0xe6734d604d116},{1870,0xea8ab6a809794},{1870,0xedc17c4d6b4a6},{1870,0xf4866f39796c0},{1870,0xfc36be993ba81},{1870,0xfdff4445ef3d8},
{1871,0x66a8eaba3a85},{1871,0xdecccdf5befb},{1871,0x10cb132c2ff63},{1871,0x165ee4883b122},{1871,0x1808d8a078654},{1871,0x20f1b03d58917},{1871,0x2260bb23e89d0},{1871,0x4aff5c0a1f572},{1871,0x5111dbced8fe1},{1871,0x608c21def3721},{1871,0x77c96c3a09130},{1871,0x78f1ad0d9a7ab},{1871,0x7f87bc4f79173},{1871,0x9507d80147609},{1871,0x99309cc247f14},{1871,0x9ac5095914683},{1871,0x9d4bfab96f410},{1871,0xa6d45db7b0bd9},{1871,0xb0ec62dd6d3ae},{1871,0xb2b38a23f786f},{1871,0xb4781ead1989e},{1871,0xbaadb512433bd},{1871,0xc1e0001eee8f8},{1871,0xc9838e239b4f0},{1871,0xdf2291e936e2f},{1871,0xe251096b615e9},{1871,0xe3f68d3bd905b},{1871,0xe6734d604d116},{1871,0xea8ab6a809794},{1871,0xede467312737f},{1871,0xf4866f39796c0},{1871,0xf50d92e531700},{1871,0xfc36be993ba81},
{1872,0x66a8eaba3a85},{1872,0xafd556bb3a04},{1872,0xdecccdf5befb},{1872,0x15001f1e20cba},{1872,0x158806efcb913},{1872,0x165ee4883b122},{1872,0x20f1b03d58917},{1872,0x2540b49c4d28a},{1872,0x31841a554bde3},{1872,0x337b58454b8d3},{1872,0x3e344207a0e4e},{1872,0x4584fd7eb7135},{1872,0x4a03bd121f7fa},{1872,0x4aff5c0a1f572},{1872,0x4cd785501f415},{1872,0x5111dbced8fe1},{1872,0x608c21def3721},{1872,0x77c96c3a09130},{1872,0x7f87bc4f79173},{1872,0x8d9ceb789b56f},{1872,0x9507d80147609},{1872,0x99309cc247f14},{1872,0xae741d24b9c03},{1872,0xb0ec62dd6d3ae},{1872,0xb4781ead1989e},{1872,0xbaadb512433bd},{1872,0xbd1ec7476f671},{1872,0xc1dfa40cde293},{1872,0xc1e0001eee8f8},{1872,0xc93555304962f},{1872,0xc9838e239b4f0},{1872,0xd2b9690b73537},{1872,0xda92b955f15a6},{1872,0xdd63618d53eed},{1872,0xdf2291e936e2f},{1872,0xe251096b615e9},{1872,0xe3f68d3bd905b},{1872,0xe6734d604d116},{1872,0xede467312737f},{1872,0xf50d92e531700},{1872,0xfc36be993ba81},
{1873,0x7eb43f74ec01},{1873,0x92b9407dcc74},{1873,0xa43d4896197f},{1873,0xafd556bb3a04},{1873,0xdecccdf5befb},{1873,0x15001f1e20cba},{1873,0x1cf2f378779ac},{1873,0x31841a554bde3},{1873,0x32e47591b5f4f},{1873,0x337b58454b8d3},{1873,0x394fea8542e3c},{1873,0x3e344207a0e4e},{1873,0x4a03bd121f7fa},{1873,0x4aff5c0a1f572},{1873,0x4cd785501f415},{1873,0x5111dbced8fe1},{1873,0x608c21def3721},{1873,0x6585ca1365ab6},{1873,0x771486abc7648},{1873,0x8d9ceb789b56f},{1873,0x9253c7b3f6fb2},{1873,0x9507d80147609},{1873,0x99309cc247f14},{1873,0xae741d24b9c03},{1873,0xb0ec62dd6d3ae},{1873,0xb4781ead1989e},{1873,0xb515451a068ab},{1873,0xc1dfa40cde293},{1873,0xc1e0001eee8f8},{1873,0xc93555304962f},{1873,0xd2b9690b73537},{1873,0xd4c7c08a05484},{1873,0xda92b955f15a6},{1873,0xe3f68d3bd905b},{1873,0xe6734d604d116},{1873,0xf50d92e531700},{1873,0xfc13d3b57fba8},
{1874,0x92b9407dcc74},{1874,0x936c6a7c200e},{1874,0xa43d4896197f},{1874,0x15001f1e20cba},{1874,0x1cf2f378779ac},{1874,0x2a23c8cdc08bd},{1874,0x31841a554bde3},{1874,0x32e47591b5f4f},{1874,0x337b58454b8d3},{1874,0x3e344207a0e4e},{1874,0x3ebf8aabb5867},{1874,0x4a03bd121f7fa},{1874,0x4cd785501f415},{1874,0x5547ef788978e},{1874,0x608c21def3721},{1874,0x6585ca1365ab6},{1874,0x734cafb7a9347},{1874,0x751e26b1580f5},{1874,0x821ec1b05f98d},{1874,0x875b94ae7eb54},{1874,0x8d9ceb789b56f},{1874,0x9253c7b3f6fb2},{1874,0x93b2e5192a1d7},{1874,0xb0ec62dd6d3ae},{1874,0xb4e7cc45a6546},{1874,0xc1dfa40cde293},{1874,0xc1e0001eee8f8},{1874,0xc93555304962f},{1874,0xcfe5a3332d4ba},{1874,0xd4c7c08a05484},{1874,0xd695f13611345},{1874,0xe6734d604d116},{1874,0xee7012c016ee3},{1874,0xf4a7b4ce643c1},{1874,0xf50d92e531700},{1874,0xfe46e378bf132},
{1875,0x2b679283e3c2},{1875,0x92b9407dcc74},{1875,0x936c6a7c200e},{1875,0xea865aeb9b6d},{1875,0x14247f3175d9c},{1875,0x15001f1e20cba},{1875,0x1cf2f378779ac},{1875,0x2a1b1158f0ac0},{1875,0x31841a554bde3},{1875,0x3758af0da1395},{1875,0x3b6ace2b1774a},{1875,0x3e344207a0e4e},{1875,0x43b9802363eba},{1875,0x4a03bd121f7fa},{1875,0x4cd785501f415},{1875,0x54fdd7f73bf3b},{1875,0x5547ef788978e},{1875,0x6585ca1365ab6},{1875,0x684404ddcbf00},{1875,0x7272e128a70ba},{1875,0x751e26b1580f5},{1875,0x7d4be648e1759},{1875,0x8d9ceb789b56f},{1875,0x90aa4428e6719},{1875,0x9253c7b3f6fb2},{1875,0x93b2e5192a1d7},{1875,0x9430fa68d7df9},{1875,0x9634ca8c99049},{1875,0x9d5df640a33ca},{1875,0xa48721f4ad74b},{1875,0xa682cd3f4c330},{1875,0xaa3d4df50af0a},{1875,0xabb04da8b7acc},{1875,0xb0ec62dd6d3ae},{1875,0xbc638a8a22064},{1875,0xc1dfa40cde293},{1875,0xc1e0001eee8f8},{1875,0xc5f1e778ad351},{1875,0xc93555304962f},{1875,0xc935c492ea565},{1875,0xcfe5a3332d4ba},{1875,0xd695f13611345},{1875,0xe6734d604d116},{1875,0xe9638267fa42e},{1875,0xf00d1b24b3019},{1875,0xf4a7b4ce643c1},{1875,0xfe46e378bf132},{1875,0xff7cc3f2d9ed9},{1875,0xffebe734ce355},
{1876,0x936c6a7c200e},{1876,0xc87e6df7f365},{1876,0xea865aeb9b6d},{1876,0x19a8ec0059567},{1876,0x1cf2f378779ac},{1876,0x2a5e1cf854754},{1876,0x36612477eed93},{1876,0x3758af0da1395},{1876,0x43b9802363eba},{1876,0x4a03bd121f7fa},{1876,0x4cd785501f415},{1876,0x533c2372b66a7},{1876,0x5547ef788978e},{1876,0x59d16e02d5bb8},{1876,0x6585ca1365ab6},{1876,0x684404ddcbf00},{1876,0x7266f00865ec4},{1876,0x751e26b1580f5},{1876,0x7d4be648e1759},{1876,0x8d9ceb789b56f},{1876,0x90aa4428e6719},{1876,0x9253c7b3f6fb2},{1876,0x93b2e5192a1d7},{1876,0x9430fa68d7df9},{1876,0x9634ca8c99049},{1876,0x9d5df640a33ca},{1876,0x9f55b8f041dde},{1876,0xa48721f4ad74b},{1876,0xa75ba91f0c80b},{1876,0xb0ec62dd6d3ae},{1876,0xb5246b279da8e},{1876,0xba02a510cc1ce},{1876,0xbc638a8a22064},{1876,0xbf8d2b747eafe},{1876,0xc1e0001eee8f8},{1876,0xc796eb34bc573},{1876,0xcfe5a3332d4ba},{1876,0xd5f98fcb3535d},{1876,0xd695f13611345},{1876,0xd846feef37376},{1876,0xf4a7b4ce643c1},{1876,0xfe46e378bf132},{1876,0xffebe734ce355},
{1877,0x936c6a7c200e},{1877,0xc87e6df7f365},{1877,0xea865aeb9b6d},{1877,0x19a8ec0059567},{1877,0x1e0331d6c08ff},{1877,0x24fcd856434d2},{1877,0x290088722707d},{1877,0x2dbff57f6c7c1},{1877,0x3758af0da1395},{1877,0x3a80340100d08},{1877,0x43b9802363eba},{1877,0x4e99158432d3f},{1877,0x5547ef788978e},{1877,0x56ecf334989b0},{1877,0x59d16e02d5bb8},{1877,0x5a524aab41577},{1877,0x5b1630a6057ba},{1877,0x684404ddcbf00},{1877,0x6a4db576afb2f},{1877,0x751e26b1580f5},{1877,0x7a4ed43465ab6},{1877,0x7d4be648e1759},{1877,0x7fcb3cd41c1e1},{1877,0x83bed510408a0},{1877,0x855ee870217b3},{1877,0x9253c7b3f6fb2},{1877,0x93b2e5192a1d7},{1877,0x9634ca8c99049},{1877,0x9f55b8f041dde},{1877,0xaa99eb56abd71},{1877,0xba02a510cc1ce},{1877,0xbf8d2b747eafe},{1877,0xcc391b8bef8eb},{1877,0xcfe5a3332d4ba},{1877,0xd16b6bf5378bd},{1877,0xd695f13611345},{1877,0xf4a7b4ce643c1},{1877,0xfb409a8cd7558},{1877,0xfe46e378bf132},{1877,0xffebe734ce355},
{1878,0xea865aeb9b6d},{1878,0x1e342d9713197},{1878,0x1fb62e389a95a},{1878,0x290088722707d},{1878,0x2c2ddc98ec606},{1878,0x2d907e31d9052},{1878,0x3758af0da1395},{1878,0x384aef9a78f8c},{1878,0x43b9802363eba},{1878,0x467acddc01457},{1878,0x48d57cdc71486},{1878,0x4e99158432d3f},{1878,0x4f67d864b4b3a},{1878,0x5547ef788978e},{1878,0x56ecf334989b0},{1878,0x59d16e02d5bb8},{1878,0x5b1630a6057ba},{1878,0x684404ddcbf00},{1878,0x6bef1520d2069},{1878,0x7d4be648e1759},{1878,0x7fcb3cd41c1e1},{1878,0x83bed510408a0},{1878,0x9253c7b3f6fb2},{1878,0x93b2e5192a1d7},{1878,0x9634ca8c99049},{1878,0xa0aba11ea3cf0},{1878,0xaa3d4df50af0a},{1878,0xaa99eb56abd71},{1878,0xb9186b45b4172},{1878,0xbf8d2b747eafe},{1878,0xc102dc447fce9},{1878,0xcc391b8bef8eb},{1878,0xd16b6bf5378bd},{1878,0xd4597c6b5444a},{1878,0xd5f603147eaac},{1878,0xd695f13611345},{1878,0xf49aaf6143ee1},{1878,0xf7c695f93b4e6},{1878,0xfe46e378bf132},{1878,0xffebe734ce355},
{1879,0x6e281ba8d058},{1879,0x7353391eb3ab},{1879,0x91152e12f9a7},{1879,0xe7473896f5ab},{1879,0xea865aeb9b6d},{1879,0x1e342d9713197},{1879,0x20ae775f7193a},{1879,0x25dbe13ed12a4},{1879,0x290088722707d},{1879,0x3758af0da1395},{1879,0x384aef9a78f8c},{1879,0x43b9802363eba},{1879,0x4990ac440c4fa},{1879,0x5547ef788978e},{1879,0x5b1630a6057ba},{1879,0x5c872f700d98e},{1879,0x5e59b6c5a892a},{1879,0x684404ddcbf00},{1879,0x6bef1520d2069},{1879,0x6fa1acd68ca2c},{1879,0x731840d4dc3ea},{1879,0x74f5a43669929},{1879,0x7d4be648e1759},{1879,0x7fcb3cd41c1e1},{1879,0x80c36f45a2391},{1879,0xa20b0bb4a44ef},{1879,0xaa99eb56abd71},{1879,0xab30970516a93},{1879,0xb1d92b4e2ff72},{1879,0xbf8d2b747eafe},{1879,0xc102dc447fce9},{1879,0xd16b6bf5378bd},{1879,0xe9c3ccbe07467},{1879,0xf49aaf6143ee1},{1879,0xfe46e378bf132},
{1880,0x6e281ba8d058},{1880,0x91152e12f9a7},{1880,0xe7473896f5ab},{1880,0x13b2206b1cb48},{1880,0x1c8d66ce9676f},{1880,0x1e342d9713197},{1880,0x250a259877857},{1880,0x25dbe13ed12a4},{1880,0x290088722707d},{1880,0x2e3e91853a59c},{1880,0x3de25402bb87a},{1880,0x4511a15bf2900},{1880,0x46a51633b81da},{1880,0x481ae13be236a},{1880,0x4990ac440c4fa},{1880,0x4fa30eb6e44f8},{1880,0x50f6279f5bf91},{1880,0x5b1630a6057ba},{1880,0x5c872f700d98e},{1880,0x684404ddcbf00},{1880,0x6fa1acd68ca2c},{1880,0x731840d4dc3ea},{1880,0x74f5a43669929},{1880,0x7fcb3cd41c1e1},{1880,0x83908d635cb80},{1880,0x8e3a2ed39b3da},{1880,0x957de9ec9963a},{1880,0x97976c2585a95},{1880,0xaa99eb56abd71},{1880,0xb1d92b4e2ff72},{1880,0xb387d983745e0},{1880,0xb9a9fcaa90f3b},{1880,0xc4e122d45b9fb},{1880,0xcb7e3607da823},{1880,0xd8e289417f163},{1880,0xdd1f2ec888e2d},{1880,0xe9c3ccbe07467},{1880,0xf8aca73d4a154},{1880,0xfe46e378bf132},
{1881,0x37a9abc279fa},{1881,0x91152e12f9a7},{1881,0xa6650b926d66},{1881,0xe7473896f5ab},{1881,0x13b2206b1cb48},{1881,0x1c8d66ce9676f},{1881,0x1e342d9713197},{1881,0x290088722707d},{1881,0x357dd17cbe79d},{1881,0x3de25402bb87a},{1881,0x481ae13be236a},{1881,0x4c7c42546081a},{1881,0x5c17d4796412b},{1881,0x5c872f700d98e},{1881,0x6cb1dd6122c42},{1881,0x731840d4dc3ea},{1881,0x809c65a69baaa},{1881,0x83908d635cb80},{1881,0x865dab811736f},{1881,0x8f997915ba41a},{1881,0x957de9ec9963a},{1881,0x97976c2585a95},{1881,0xa4ffaf1b36d93},{1881,0xaa99eb56abd71},{1881,0xb387d983745e0},{1881,0xb9a9fcaa90f3b},{1881,0xcb7e3607da823},{1881,0xd1a34949faf63},{1881,0xdd1f2ec888e2d},{1881,0xe9c3ccbe07467},{1881,0xecd6e22354a64},{1881,0xfe27c61ae2b1a},{1881,0xfe46e378bf132},
{1882,0x91152e12f9a7},{1882,0xa6650b926d66},{1882,0xe7473896f5ab},{1882,0x43bf73b094581},{1882,0x452f4b2b8e04a},{1882,0x481ae13be236a},{1882,0x48d5c6bff7432},{1882,0x4c7c42546081a},{1882,0x4cffe4e7708c0},{1882,0x50545f835aa1e},{1882,0x59ba11525319f},{1882,0x5c17d4796412b},{1882,0x5c872f700d98e},{1882,0x6cb1dd6122c42},{1882,0x731840d4dc3ea},{1882,0x7405ce6b387c9},{1882,0x83908d635cb80},{1882,0x865dab811736f},{1882,0x8d83d238389d6},{1882,0x901cdb724b911},{1882,0x90282d8ef50d4},{1882,0x957de9ec9963a},{1882,0xa2edd09bb5ac9},{1882,0xaa99eb56abd71},{1882,0xb9a9fcaa90f3b},{1882,0xcb7e3607da823},{1882,0xd1a34949faf63},{1882,0xdd1f2ec888e2d},{1882,0xe66931d39356f},{1882,0xe9c3ccbe07467},
{1883,0x91152e12f9a7},{1883,0xe7473896f5ab},{1883,0xf3973b21de58},{1883,0x1c760a1e13d56},{1883,0x216e08bb7a562},{1883,0x22ac6a0a858a0},{1883,0x285ea034619b5},{1883,0x2bb31ad04bb13},{1883,0x3417426de13a5},{1883,0x36c9953be33c1},{1883,0x426d460536202},{1883,0x43bf73b094581},{1883,0x4492a2059f705},{1883,0x452f4b2b8e04a},{1883,0x481ae13be236a},{1883,0x487853fdecbce},{1883,0x48d5c6bff7432},{1883,0x4c7c42546081a},{1883,0x4cffe4e7708c0},{1883,0x50545f835aa1e},{1883,0x59ba11525319f},{1883,0x784a1ed253a87},{1883,0x79ebd05920fb2},{1883,0x7bc939293ca5d},{1883,0x83908d635cb80},{1883,0x901cdb724b911},{1883,0x957de9ec9963a},{1883,0x96fe1886925e8},{1883,0x9fc20239897f6},{1883,0xa2edd09bb5ac9},{1883,0xac007a6589169},{1883,0xcb7e3607da823},{1883,0xd1a34949faf63},{1883,0xe474b0bc33e60},{1883,0xe5d0271ce94a0},{1883,0xe9c3ccbe07467},{1883,0xee811f7149b13},{1883,0xf37fd75b28d20},{1883,0xf746182e6cd5d},
{1884,0x91152e12f9a7},{1884,0xe7473896f5ab},{1884,0x1c760a1e13d56},{1884,0x1ce1ffebb4e18},{1884,0x22ac6a0a858a0},{1884,0x3a3bd86e52492},{1884,0x426d460536202},{1884,0x43bf73b094581},{1884,0x4492a2059f705},{1884,0x470288f5c2a3e},{1884,0x481ae13be236a},{1884,0x48499a9ce779c},{1884,0x48d5c6bff7432},{1884,0x4c7c42546081a},{1884,0x50545f835aa1e},{1884,0x531e7bb6f1210},{1884,0x59ba11525319f},{1884,0x7bc939293ca5d},{1884,0x83908d635cb80},{1884,0x957de9ec9963a},{1884,0x9fc20239897f6},{1884,0xa03fde214caf0},{1884,0xa2edd09bb5ac9},{1884,0xac7433f8e2c45},{1884,0xb4029f0fc84f0},{1884,0xd1a34949faf63},{1884,0xd8a414944d338},{1884,0xe474b0bc33e60},{1884,0xe5d0271ce94a0},{1884,0xed4db83871711},{1884,0xee811f7149b13},{1884,0xf4323e9d4f8b3},{1884,0xf746182e6cd5d},
{1885,0x2131e335d9fb},{1885,0x50bbfd052e2d},{1885,0x91152e12f9a7},{1885,0x9a27180b2010},{1885,0xa1c5cdef4423},{1885,0x1428453b03add},{1885,0x1c760a1e13d56},{1885,0x2127a3f476a36},{1885,0x3a3bd86e52492},{1885,0x3b180db83377b},{1885,0x426d460536202},{1885,0x435c0d6159656},{1885,0x43bf73b094581},{1885,0x4492a2059f705},{1885,0x47ec27dadcf38},{1885,0x48323dec64d83},{1885,0x48499a9ce779c},{1885,0x48d5c6bff7432},{1885,0x4c7c42546081a},{1885,0x4cffe4e7708c0},{1885,0x50545f835aa1e},{1885,0x59ba11525319f},{1885,0x5e1c062bceaa6},{1885,0x67fda016c83d4},{1885,0x7356a22625025},{1885,0x769fe1845e9d8},{1885,0x7bc939293ca5d},{1885,0x941eb6910fb51},{1885,0x957de9ec9963a},{1885,0x992f12f35026c},{1885,0x9c627051777dc},{1885,0xa03fde214caf0},{1885,0xa2edd09bb5ac9},{1885,0xb5252c4d432b8},{1885,0xbab967d67e01b},{1885,0xd284ff114656d},{1885,0xdb0bfd03176e1},{1885,0xe474b0bc33e60},{1885,0xed4db83871711},{1885,0xeddd6475505de},{1885,0xee811f7149b13},{1885,0xf37fd75b28d20},{1885,0xf4323e9d4f8b3},{1885,0xf746182e6cd5d},{1885,0xfe25a484bc594},
{1886,0x91152e12f9a7},{1886,0x1c760a1e13d56},{1886,0x235fe84a827a8},{1886,0x2aae8eb4c4c27},{1886,0x3a3bd86e52492},{1886,0x426d460536202},{1886,0x4492a2059f705},{1886,0x47ec27dadcf38},{1886,0x48323dec64d83},{1886,0x4860f74d6a1b5},{1886,0x4cffe4e7708c0},{1886,0x50545f835aa1e},{1886,0x67dce12d75d66},{1886,0x6b57848d26ec8},{1886,0x6de21fab18241},{1886,0x7356a22625025},{1886,0x74c0384643646},{1886,0x769fe1845e9d8},{1886,0x7bc939293ca5d},{1886,0x8b223960ed577},{1886,0x8b6fdfd2d5a64},{1886,0x992f12f35026c},{1886,0xa03fde214caf0},{1886,0xa2edd09bb5ac9},{1886,0xaed39c3919d72},{1886,0xbab967d67e01b},{1886,0xc83a9590de7e4},{1886,0xc9dfdabe3ac08},{1886,0xd284ff114656d},{1886,0xde01338424f54},{1886,0xe474b0bc33e60},{1886,0xea50964c0eabf},{1886,0xeddd6475505de},{1886,0xee811f7149b13},{1886,0xf37fd75b28d20},{1886,0xf746182e6cd5d},
{1887,0xc0c8b1aa5202},{1887,0x100d12e19dc8f},{1887,0x1c760a1e13d56},{1887,0x2ec8ee75a06fc},{1887,0x3a3bd86e52492},{1887,0x426d460536202},{1887,0x4492a2059f705},{1887,0x47ec27dadcf38},{1887,0x4860f74d6a1b5},{1887,0x510c5ccde40fc},{1887,0x5b8b0aeb5cad3},{1887,0x61cfe335e794c},{1887,0x61eed0d40a749},{1887,0x67dce12d75d66},{1887,0x6b57848d26ec8},{1887,0x769fe1845e9d8},{1887,0x7eef0432ac14e},{1887,0x8b223960ed577},{1887,0x8b6fdfd2d5a64},{1887,0x90fa537198cc2},{1887,0x970804fe51820},{1887,0x9a3415eb0478e},{1887,0xa03fde214caf0},{1887,0xa2edd09bb5ac9},{1887,0xa7e61aa4ad694},{1887,0xad9dc04da2bf1},{1887,0xaed39c3919d72},{1887,0xb50fdc6fc3b7c},{1887,0xb5c3272975f32},{1887,0xbab967d67e01b},{1887,0xbfacaf794de3d},{1887,0xc69f3373e22c4},{1887,0xc83a9590de7e4},{1887,0xc9dfdabe3ac08},{1887,0xd284ff114656d},{1887,0xde01338424f54},{1887,0xe474b0bc33e60},{1887,0xec51340eb7ecb},{1887,0xee811f7149b13},{1887,0xf1fae5d0d2d1a},{1887,0xf746182e6cd5d},{1887,0xf810452ac7957},
{1888,0x3d7cb98edc58},{1888,0xc0c8b1aa5202},{1888,0x100d12e19dc8f},{1888,0x117577a61d9b8},{1888,0x200e10d867d86},{1888,0x2cdf8921828aa},{1888,0x2ec8ee75a06fc},{1888,0x382fe698f9834},{1888,0x3ef37fa5acffb},{1888,0x426d460536202},{1888,0x4492a2059f705},{1888,0x45a41a9e1b2c7},{1888,0x47ec27dadcf38},{1888,0x510c5ccde40fc},{1888,0x5b8b0aeb5cad3},{1888,0x61eed0d40a749},{1888,0x67dce12d75d66},{1888,0x6e50adf81d4c8},{1888,0x769fe1845e9d8},{1888,0x7ed7a78229735},{1888,0x7eef0432ac14e},{1888,0x7f42ff88c5c64},{1888,0x7f946bbc4dcc5},{1888,0x8107e0ab9a21e},{1888,0x8b6fdfd2d5a64},{1888,0x90a3df6673687},{1888,0x9514b33274797},{1888,0x95d7defa112aa},{1888,0x970804fe51820},{1888,0x9a3415eb0478e},{1888,0xa03fde214caf0},{1888,0xa2edd09bb5ac9},{1888,0xaaa7dd4888336},{1888,0xaed39c3919d72},{1888,0xb4d988445ba38},{1888,0xbab967d67e01b},{1888,0xc0804ea8cdc74},{1888,0xd284ff114656d},{1888,0xee811f7149b13},{1888,0xef1158acb57b3},{1888,0xf1fae5d0d2d1a},{1888,0xf746182e6cd5d},{1888,0xf810452ac7957},{1888,0xff7ad7b024307},
{1889,0x3d7cb98edc58},{1889,0x427ead4cfed6},{1889,0x100d12e19dc8f},{1889,0x117577a61d9b8},{1889,0x1689de124ef3c},{1889,0x2a4fda739e9ca},{1889,0x2cdf8921828aa},{1889,0x2ec8ee75a06fc},{1889,0x2ed3963e8965d},{1889,0x382fe698f9834},{1889,0x3ef37fa5acffb},{1889,0x426d460536202},{1889,0x4492a2059f705},{1889,0x45a41a9e1b2c7},{1889,0x47ec27dadcf38},{1889,0x5b8b0aeb5cad3},{1889,0x61eed0d40a749},{1889,0x639c4f67c9c75},{1889,0x67dce12d75d66},{1889,0x6c37e25d23192},{1889,0x6e50adf81d4c8},{1889,0x7f946bbc4dcc5},{1889,0x8107e0ab9a21e},{1889,0x844261f190e2b},{1889,0x863be03f37e41},{1889,0x8b6fdfd2d5a64},{1889,0x90a3df6673687},{1889,0x9307835206a2c},{1889,0x95d7defa112aa},{1889,0x970804fe51820},{1889,0x9a3415eb0478e},{1889,0x9b0bde8daeecd},{1889,0xa03fde214caf0},{1889,0xa2edd09bb5ac9},{1889,0xaed39c3919d72},{1889,0xc0804ea8cdc74},{1889,0xc6177dddeba54},{1889,0xc62d65b070a7a},{1889,0xd0fe7f43d59f2},{1889,0xd284ff114656d},{1889,0xd447d9e57644e},{1889,0xf1fae5d0d2d1a},{1889,0xf32bb86d91288},{1889,0xf746182e6cd5d},{1889,0xf8b5fa683a546},{1889,0xfb6077ef48832},{1889,0xff7ad7b024307},
{1890,0x3d7cb98edc58},{1890,0x100d12e19dc8f},{1890,0x117577a61d9b8},{1890,0x185baa5d38281},{1890,0x2cb0cfc07d478},{1890,0x2ec8ee75a06fc},{1890,0x35d22f97f3d95},{1890,0x3ea888cfcdd16},{1890,0x3ef37fa5acffb},{1890,0x426d460536202},{1890,0x4492a2059f705},{1890,0x5233e47b0e4e3},{1890,0x585ef9fea9b65},{1890,0x67cbaf8610341},{1890,0x6c37e25d23192},{1890,0x6e50adf81d4c8},{1890,0x7139fb74f99d5},{1890,0x7a7b2a13088bb},{1890,0x80aae54c5e129},{1890,0x844261f190e2b},{1890,0x863be03f37e41},{1890,0x8b6fdfd2d5a64},{1890,0x90a3df6673687},{1890,0x95d7defa112aa},{1890,0x970804fe51820},{1890,0x9a3415eb0478e},{1890,0xa03fde214caf0},{1890,0xaed39c3919d72},{1890,0xb025c9e4780f1},{1890,0xb0496dcad8156},{1890,0xba43dc036179f},{1890,0xbe29538e2c3c1},{1890,0xc0804ea8cdc74},{1890,0xc62d65b070a7a},{1890,0xc7e087dfa392c},{1890,0xd0fe7f43d59f2},{1890,0xd284ff114656d},{1890,0xd447d9e57644e},{1890,0xeb5038791afb8},{1890,0xf538e84dfeff2},{1890,0xf746182e6cd5d},{1890,0xf8b5fa683a546},{1890,0xf953480edaac7},{1890,0xfb6077ef48832},
{1891,0x3d7cb98edc58},{1891,0x427ead4cfed6},{1891,0xa9d4fefd8465},{1891,0xe19bafb12f6d},{1891,0x117577a61d9b8},{1891,0x1f1323b34d718},{1891,0x35d22f97f3d95},{1891,0x3ea888cfcdd16},{1891,0x3ef37fa5acffb},{1891,0x4492a2059f705},{1891,0x515d3529cf9fd},{1891,0x535f9795de99e},{1891,0x5674200a96268},{1891,0x585ef9fea9b65},{1891,0x63277ff53c9f8},{1891,0x6a6b256e61b25},{1891,0x6c37e25d23192},{1891,0x6e50adf81d4c8},{1891,0x76be128473d44},{1891,0x774022dbeba4d},{1891,0x786dfa329ab50},{1891,0x7a7b2a13088bb},{1891,0x844261f190e2b},{1891,0x863be03f37e41},{1891,0x8b6fdfd2d5a64},{1891,0x90a3df6673687},{1891,0x970804fe51820},{1891,0xa03fde214caf0},{1891,0xa135dabfde8f6},{1891,0xb0496dcad8156},{1891,0xc0804ea8cdc74},{1891,0xc4306b4438ad0},{1891,0xe8e9c90b6bf73},{1891,0xeb5038791afb8},{1891,0xf32bb86d91288},{1891,0xf746182e6cd5d},{1891,0xf8b5fa683a546},{1891,0xf953480edaac7},{1891,0xfd6da7cfb659c},
{1892,0x3d7cb98edc58},{1892,0x427ead4cfed6},{1892,0xaa6a19f85b08},{1892,0x117577a61d9b8},{1892,0x1af725f7a151b},{1892,0x1f1323b34d718},{1892,0x2a8767b57b658},{1892,0x3c15b3055666a},{1892,0x42ba93b7e9fd7},{1892,0x43a69adec4b6e},{1892,0x4842bea10a561},{1892,0x515d3529cf9fd},{1892,0x535f9795de99e},{1892,0x5ab34daa20d2d},{1892,0x63277ff53c9f8},{1892,0x6e50adf81d4c8},{1892,0x7660ca522cde6},{1892,0x76be128473d44},{1892,0x7a7b2a13088bb},{1892,0x80a2b9b4520fa},{1892,0x844261f190e2b},{1892,0x863be03f37e41},{1892,0x90a3df6673687},{1892,0x9e2e4aa37f85a},{1892,0xa03fde214caf0},{1892,0xb0496dcad8156},{1892,0xb8e0a120bab0c},{1892,0xc0804ea8cdc74},{1892,0xc1181b752088d},{1892,0xc4306b4438ad0},{1892,0xd465ea472194a},{1892,0xd79be9f20cdd8},{1892,0xf18c5783cda93},{1892,0xf32bb86d91288},{1892,0xf8b5fa683a546},{1892,0xf953480edaac7},{1892,0xfd6da7cfb659c},
{1893,0x706095a1d00},{1893,0x18fbe5c2bfe7},{1893,0x3d7cb98edc58},{1893,0x73f369c39bb0},{1893,0xaa6a19f85b08},{1893,0x124d49ae24d55},{1893,0x1af725f7a151b},{1893,0x1cb8731730d61},{1893,0x1f1323b34d718},{1893,0x2a8767b57b658},{1893,0x34ef66dcb6e9e},{1893,0x362a2d90b878c},{1893,0x37fb53447ab95},{1893,0x3f0a771c7f17b},{1893,0x411d51d445088},{1893,0x43a69adec4b6e},{1893,0x5ab34daa20d2d},{1893,0x5b486e8c2f792},{1893,0x6c1edaf007ad1},{1893,0x7660ca522cde6},{1893,0x76be128473d44},{1893,0x7a7b2a13088bb},{1893,0x8005cd8d66c44},{1893,0x863be03f37e41},{1893,0x99ade599e19e3},{1893,0x9e2e4aa37f85a},{1893,0xa73bdc372bcd8},{1893,0xb4c6415fdf037},{1893,0xc0804ea8cdc74},{1893,0xc1181b752088d},{1893,0xc51c726b13667},{1893,0xd2f0ddb1e4440},{1893,0xd465ea472194a},{1893,0xd79be9f20cdd8},{1893,0xedbe516ca8b33},{1893,0xf18c5783cda93},{1893,0xf2cef18b24049},{1893,0xfd6da7cfb659c},
{1894,0x224161747cac},{1894,0x3d7cb98edc58},{1894,0x58b811a93c04},{1894,0x73f369c39bb0},{1894,0xe0e0ca2d1a60},{1894,0x124d49ae24d55},{1894,0x1af725f7a151b},{1894,0x1f1323b34d718},{1894,0x2b75bd51b2f20},{1894,0x2c99e813689af},{1894,0x34ef66dcb6e9e},{1894,0x43a69adec4b6e},{1894,0x5ab34daa20d2d},{1894,0x6c1edaf007ad1},{1894,0x76be128473d44},{1894,0x7a7b2a13088bb},{1894,0x8005cd8d66c44},{1894,0x863be03f37e41},{1894,0x86e30bc162ab2},{1894,0x99ade599e19e3},{1894,0x9e2e4aa37f85a},{1894,0xa73bdc372bcd8},{1894,0xbbe41be182c6a},{1894,0xc1181b752088d},{1894,0xc1aa35f899475},{1894,0xc51c726b13667},{1894,0xd2f0ddb1e4440},{1894,0xd78859a1b8de4},{1894,0xd79be9f20cdd8},{1894,0xe8b3525b3737e},{1894,0xed8d9deb8073b},{1894,0xf18c5783cda93},{1894,0xf2cef18b24049},
{1895,0x2fdf0d81ac82},{1895,0x3d7cb98edc58},{1895,0x4b1a659c0c2e},{1895,0x58b811a93c04},{1895,0x616872602226},{1895,0xe0e0ca2d1a60},{1895,0x124d49ae24d55},{1895,0x1af725f7a151b},{1895,0x2c99e813689af},{1895,0x34ef66dcb6e9e},{1895,0x37fb53447ab95},{1895,0x3dfffe1fe3c23},{1895,0x42c185bcd1f5b},{1895,0x43a69adec4b6e},{1895,0x522268e4c0d40},{1895,0x69b2b291a2af1},{1895,0x76be128473d44},{1895,0x7869c15f1cd84},{1895,0x863be03f37e41},{1895,0x86e30bc162ab2},{1895,0x8b1b1fc6ac004},{1895,0x9e2e4aa37f85a},{1895,0x9fd5753b2b223},{1895,0xa73bdc372bcd8},{1895,0xaa4ddb4d8512d},{1895,0xabb881ff25b12},{1895,0xbbe42ae688281},{1895,0xbd491af390f94},{1895,0xc1181b752088d},{1895,0xc51c726b13667},{1895,0xc98096d45e255},{1895,0xd3f8fce6b815f},{1895,0xd79be9f20cdd8},{1895,0xe8b3525b3737e},{1895,0xf18c5783cda93},
{1896,0x14a3b5674cd6},{1896,0x36ade388446d},{1896,0x3d7cb98edc58},{1896,0x444b8f957443},{1896,0x4b1a659c0c2e},{1896,0x58b811a93c04},{1896,0x9ccc6deb2b32},{1896,0xdcdbe78635f9},{1896,0x124d49ae24d55},{1896,0x138c64b474ae7},{1896,0x1af725f7a151b},{1896,0x1c8ba8d8c36ba},{1896,0x2795af3b8b574},{1896,0x2826a3e7044bc},{1896,0x2c99e813689af},{1896,0x335a5f085f89c},{1896,0x34ef66dcb6e9e},{1896,0x37fb53447ab95},{1896,0x3dfffe1fe3c23},{1896,0x43a69adec4b6e},{1896,0x522268e4c0d40},{1896,0x69b2b291a2af1},{1896,0x69ef92f314fe7},{1896,0x6be8643fd2edc},{1896,0x6dd8223b4465d},{1896,0x863be03f37e41},{1896,0x95656703619bf},{1896,0x9fd5753b2b223},{1896,0xabb881ff25b12},{1896,0xb4d03694ae395},{1896,0xbf249b9dc5600},{1896,0xc51c726b13667},{1896,0xc98096d45e255},{1896,0xca728272ceeb6},{1896,0xd3f8fce6b815f},{1896,0xd79be9f20cdd8},{1896,0xe3ba38a3b29d6},{1896,0xe8b3525b3737e},{1896,0xe9fd907d405ff},{1896,0xf18c5783cda93},
{1897,0x14a3b5674cd6},{1897,0x36ade388446d},{1897,0x37e948ba7489},{1897,0x3d7cb98edc58},{1897,0x444b8f957443},{1897,0x58b811a93c04},{1897,0x7ac23fca339b},{1897,0x124d49ae24d55},{1897,0x124f5266f098e},{1897,0x146272380258a},{1897,0x1af725f7a151b},{1897,0x2795af3b8b574},{1897,0x28208d76df43d},{1897,0x2826a3e7044bc},{1897,0x2c99e813689af},{1897,0x3b807cf392205},{1897,0x3dfffe1fe3c23},{1897,0x43a69adec4b6e},{1897,0x4da2befcb281e},{1897,0x51f1dbc226d38},{1897,0x522268e4c0d40},{1897,0x53d95858c338a},{1897,0x69ef92f314fe7},{1897,0x6be8643fd2edc},{1897,0x6e867dc46969e},{1897,0x782859c4202cd},{1897,0x8b4bbc48547d7},{1897,0xa397f3976e52c},{1897,0xabb881ff25b12},{1897,0xb4d03694ae395},{1897,0xc51c726b13667},{1897,0xd10736326de47},{1897,0xd79be9f20cdd8},{1897,0xe8b3525b3737e},{1897,0xedef856464303},
{1898,0x36ade388446d},{1898,0x3d7cb98edc58},{1898,0x40e42492284e},{1898,0x58b811a93c04},{1898,0x7390ab8c4668},{1898,0x7ac23fca339b},{1898,0x10ee4b2fde325},{1898,0x122ed97d6bada},{1898,0x124f5266f098e},{1898,0x13adee826fe8f},{1898,0x146272380258a},{1898,0x28208d76df43d},{1898,0x2826a3e7044bc},{1898,0x30dec73163aa3},{1898,0x3b08565db3c97},{1898,0x3dfffe1fe3c23},{1898,0x43a69adec4b6e},{1898,0x51f1dbc226d38},{1898,0x522268e4c0d40},{1898,0x5bf2d22dde8c3},{1898,0x69ef92f314fe7},{1898,0x6be8643fd2edc},{1898,0x739f473b1984d},{1898,0x782859c4202cd},{1898,0x85deecbd7f07f},{1898,0x8615636db3c75},{1898,0x8b4bbc48547d7},{1898,0x8c54cfc034c3a},{1898,0x967e5eec84e2e},{1898,0xa397f3976e52c},{1898,0xacebf4d21b8ef},{1898,0xb4d03694ae395},{1898,0xbc82390bc68be},{1898,0xc51c726b13667},{1898,0xd10736326de47},{1898,0xd79be9f20cdd8},{1898,0xdda14922b5bdd},{1898,0xfc1df6a7a61ba},{1898,0xfe8b3a4121092},
{1899,0x323c2e9fb1d7},{1899,0x36ade388446d},{1899,0x3d7cb98edc58},{1899,0x7ac23fca339b},{1899,0x11cea7bcd352e},{1899,0x13adee826fe8f},{1899,0x1cf280d13df81},{1899,0x2826a3e7044bc},{1899,0x43a69adec4b6e},{1899,0x44db5c2b3666c},{1899,0x522268e4c0d40},{1899,0x5bf2d22dde8c3},{1899,0x69ef92f314fe7},{1899,0x6f6a7a5568a20},{1899,0x70023bd8ed964},{1899,0x739f473b1984d},{1899,0x782859c4202cd},{1899,0x85deecbd7f07f},{1899,0x86b8c77e52055},{1899,0x8b4bbc48547d7},{1899,0x8c54cfc034c3a},{1899,0x967c482c67331},{1899,0xa616fc9ee9c58},{1899,0xacebf4d21b8ef},{1899,0xb6b46733f2003},{1899,0xc1b04c68be4f4},{1899,0xc6e27d4fc7a93},{1899,0xd10736326de47},{1899,0xd79be9f20cdd8},{1899,0xda69015a15ecb},{1899,0xdda14922b5bdd},{1899,0xf17813653c45d},{1899,0xfc1df6a7a61ba},{1899,0xfe8b3a4121092},{1899,0xff638259d264a},
{1900,0x36ade388446d},{1900,0x7ac23fca339b},{1900,0x111ce7c6e9487},{1900,0x1ab18d3505541},{1900,0x1cf280d13df81},{1900,0x2474cf3a2c75d},{1900,0x26f641ffc8bee},{1900,0x2826a3e7044bc},{1900,0x3ccf9c38a8355},{1900,0x43a69adec4b6e},{1900,0x4511d2db6b261},{1900,0x482e99bcffb1c},{1900,0x52a8f67187abc},{1900,0x59d46b5bd9269},{1900,0x5bf2d22dde8c3},{1900,0x65785fcc75170},{1900,0x6f6a7a5568a20},{1900,0x739f473b1984d},{1900,0x74eb7827e14d8},{1900,0x75aba644fa0f8},{1900,0x782859c4202cd},{1900,0x7f7581c1b7012},{1900,0x85deecbd7f07f},{1900,0x875250f843aff},{1900,0x88d96a60617ec},{1900,0x9051fd13837f5},{1900,0xa3833223babfc},{1900,0xb6b46733f2003},{1900,0xc1b04c68be4f4},{1900,0xc6e27d4fc7a93},{1900,0xd2511b7005675},{1900,0xea1d258537a64},{1900,0xf17813653c45d},{1900,0xfe8b3a4121092},
{1901,0x4ba34c9b3566},{1901,0x111ce7c6e9487},{1901,0x1cf280d13df81},{1901,0x243e5889f7b67},{1901,0x2474cf3a2c75d},{1901,0x26f641ffc8bee},{1901,0x3ccf9c38a8355},{1901,0x42f12ff95baca},{1901,0x43a69adec4b6e},{1901,0x4511d2db6b261},{1901,0x59d46b5bd9269},{1901,0x5bf2d22dde8c3},{1901,0x5f121def01d71},{1901,0x70628606586da},{1901,0x739f473b1984d},{1901,0x74eb7827e14d8},{1901,0x75aba644fa0f8},{1901,0x7d1678fdbc94b},{1901,0x7e5baae34698a},{1901,0x7fbd555e31ee6},{1901,0x85a8760d4a48a},{1901,0x875250f843aff},{1901,0x8976d63c91b0e},{1901,0x8ac4d260c0c3f},{1901,0x9051fd13837f5},{1901,0x9721f6cef1f9c},{1901,0x9e1fc734fc3d2},{1901,0xa3833223babfc},{1901,0xa5a63f608ab63},{1901,0xa67bf05ebdb84},{1901,0xb6af36d742b0b},{1901,0xb6b46733f2003},{1901,0xc6e27d4fc7a93},{1901,0xeb9a6dffa3e8d},{1901,0xf17813653c45d},{1901,0xfc1df6a7a61ba},{1901,0xfe8b3a4121092},
{1902,0x6250a94856ae},{1902,0xe14318fb634f},{1902,0x111ce7c6e9487},{1902,0x2145669fed756},{1902,0x243067d43c06a},{1902,0x34a815b2b16e4},{1902,0x34b2e12608245},{1902,0x3d92ba28c7d14},{1902,0x42f12ff95baca},{1902,0x43a69adec4b6e},{1902,0x4d103abf9342a},{1902,0x5bf2d22dde8c3},{1902,0x65e54d2cde95b},{1902,0x70628606586da},{1902,0x739f473b1984d},{1902,0x74eb7827e14d8},{1902,0x75aba644fa0f8},{1902,0x7e5baae34698a},{1902,0x7fbd555e31ee6},{1902,0x875250f843aff},{1902,0x8976d63c91b0e},{1902,0x9612333604007},{1902,0x967d043026385},{1902,0x9e4711ca60dc5},{1902,0xa3833223babfc},{1902,0xa5a63f608ab63},{1902,0xa67bf05ebdb84},{1902,0xb28bad502ae55},{1902,0xbc9a37d2b1583},{1902,0xc41e765d19f1b},{1902,0xcfa82445c792d},{1902,0xd9cb9e58014d3},{1902,0xe146213ffd331},{1902,0xe71293909cdac},{1902,0xeb9a6dffa3e8d},{1902,0xf17813653c45d},{1902,0xfc1df6a7a61ba},
{1903,0x6250a94856ae},{1903,0x111ce7c6e9487},{1903,0x1129b51e07917},{1903,0x13d49b613dfea},{1903,0x14f56ed6cd0b5},{1903,0x1840bcb3bb8ba},{1903,0x19492aa4cf38c},{1903,0x243067d43c06a},{1903,0x33eb8159805ec},{1903,0x34a815b2b16e4},{1903,0x3cdcf4470e4a3},{1903,0x42f12ff95baca},{1903,0x4d103abf9342a},{1903,0x5bf2d22dde8c3},{1903,0x62644c61d41a9},{1903,0x65e54d2cde95b},{1903,0x70628606586da},{1903,0x74eb7827e14d8},{1903,0x75aba644fa0f8},{1903,0x7e5baae34698a},{1903,0x7fbd555e31ee6},{1903,0x93157a45a2351},{1903,0x967d043026385},{1903,0x9cd8586836f67},{1903,0x9e4711ca60dc5},{1903,0x9e9c79b6eddfa},{1903,0xa3833223babfc},{1903,0xaa7b2450d1c68},{1903,0xb28bad502ae55},{1903,0xc41e765d19f1b},{1903,0xd201e05ab3959},{1903,0xd3168fd638936},{1903,0xd4e18178f58fb},{1903,0xe146213ffd331},{1903,0xe71293909cdac},{1903,0xeb9a6dffa3e8d},{1903,0xf17813653c45d},{1903,0xf297006e1afe5},{1903,0xf955a027de71e},{1903,0xfc1df6a7a61ba},
{1904,0x6250a94856ae},{1904,0x111ce7c6e9487},{1904,0x1840bcb3bb8ba},{1904,0x19492aa4cf38c},{1904,0x2c0df496de32b},{1904,0x33eb8159805ec},{1904,0x34a815b2b16e4},{1904,0x42f12ff95baca},{1904,0x46f6317c5acd9},{1904,0x4d73a9de05022},{1904,0x4f3317519cda2},{1904,0x5bf2d22dde8c3},{1904,0x62644c61d41a9},{1904,0x697793be89255},{1904,0x759581720b5b0},{1904,0x75aba644fa0f8},{1904,0x7e5baae34698a},{1904,0x7fbd555e31ee6},{1904,0x81d9f41a82236},{1904,0x9e4711ca60dc5},{1904,0xa3833223babfc},{1904,0xacb9481d74275},{1904,0xbc897ac308302},{1904,0xbf08274016194},{1904,0xc246c6d56f3d7},{1904,0xc41e765d19f1b},{1904,0xd201e05ab3959},{1904,0xd3168fd638936},{1904,0xd4e18178f58fb},{1904,0xe1bcf9dff7edb},{1904,0xe71293909cdac},{1904,0xeabadbb1d5062},{1904,0xf17813653c45d},{1904,0xf955a027de71e},
{1905,0x26e4310bfd86},{1905,0x6250a94856ae},{1905,0x80d763b36932},{1905,0x103d55791a65c},{1905,0x111ce7c6e9487},{1905,0x19492aa4cf38c},{1905,0x1e5ac5f6f400b},{1905,0x248b1d46f08bc},{1905,0x2bfb71e8c4f77},{1905,0x2c0df496de32b},{1905,0x3cdcf4470e4a3},{1905,0x3d92ba28c7d14},{1905,0x42f12ff95baca},{1905,0x4e5702e0cfbeb},{1905,0x532a4402cbb7c},{1905,0x5bf2d22dde8c3},{1905,0x615742abc6cd8},{1905,0x62644c61d41a9},{1905,0x6ea51971d44ae},{1905,0x71ac7252e6013},{1905,0x7d7c189577b5f},{1905,0x7fbd555e31ee6},{1905,0x8cf768b2f9c59},{1905,0x96a090c0af685},{1905,0x9e4711ca60dc5},{1905,0xa67bf05ebdb84},{1905,0xb69829d97aaa0},{1905,0xc25a55b2e85cc},{1905,0xc41e765d19f1b},{1905,0xcf8449448e03c},{1905,0xd3168fd638936},{1905,0xd4e18178f58fb},{1905,0xd926abb9358bc},{1905,0xd9df6d1d55c1a},{1905,0xdb4b6e6a956f4},{1905,0xe1bcf9dff7edb},{1905,0xe99a86a29a19c},{1905,0xe9db496406237},{1905,0xeabadbb1d5062},{1905,0xf17813653c45d},{1905,0xf941d16289fd7},{1905,0xf955a027de71e},
{1906,0x298c5634a5bc},{1906,0x80d763b36932},{1906,0x111ce7c6e9487},{1906,0x19d89ed0fe235},{1906,0x1e5ac5f6f400b},{1906,0x248b1d46f08bc},{1906,0x33be26a0261c3},{1906,0x3cdcf4470e4a3},{1906,0x3d92ba28c7d14},{1906,0x42f12ff95baca},{1906,0x474c802e307f3},{1906,0x52243952913d1},{1906,0x5e50ebe0aa6e8},{1906,0x615742abc6cd8},{1906,0x62644c61d41a9},{1906,0x71ac7252e6013},{1906,0x791e3d106d488},{1906,0x7d7c189577b5f},{1906,0x893abc9ef4d83},{1906,0x932069ec82259},{1906,0xa67bf05ebdb84},{1906,0xb4a9bff812bfc},{1906,0xc41e765d19f1b},{1906,0xcf8449448e03c},{1906,0xd3168fd638936},{1906,0xd4e18178f58fb},{1906,0xd863db4fdc6db},{1906,0xd926abb9358bc},{1906,0xdb4b6e6a956f4},{1906,0xe99a86a29a19c},{1906,0xe9db496406237},{1906,0xeabadbb1d5062},{1906,0xf17813653c45d},{1906,0xf3f86883f2f1c},{1906,0xf955a027de71e},{1906,0xfb98f03e79175},
{1907,0x80d763b36932},{1907,0x111ce7c6e9487},{1907,0x155813edbafb5},{1907,0x15c9fa73819c3},{1907,0x19d89ed0fe235},{1907,0x2925b1d643600},{1907,0x33be26a0261c3},{1907,0x3e55d8ebcf37a},{1907,0x42f12ff95baca},{1907,0x474c802e307f3},{1907,0x52243952913d1},{1907,0x5e50ebe0aa6e8},{1907,0x615742abc6cd8},{1907,0x62644c61d41a9},{1907,0x67f0aa3f24f16},{1907,0x6bc8dfbfe24b7},{1907,0x749e3b9c67dc1},{1907,0x791e3d106d488},{1907,0x7d7c189577b5f},{1907,0x88b17558fd59c},{1907,0x9ba2e6ed64d52},{1907,0xa96db9a83f932},{1907,0xaa9a51c83444d},{1907,0xad567169d29fb},{1907,0xaefe9e502698f},{1907,0xb31b7ce15d5c7},{1907,0xb3abb0fcbeecb},{1907,0xc41e765d19f1b},{1907,0xd3168fd638936},{1907,0xd4e18178f58fb},{1907,0xde3d37b4174a2},{1907,0xe68f8a1e943ec},{1907,0xe9db496406237},{1907,0xeabadbb1d5062},{1907,0xed43f95143984},{1907,0xee3924e91090e},{1907,0xf17813653c45d},{1907,0xf3f86883f2f1c},{1907,0xf955a027de71e},{1907,0xfb98f03e79175},
{1908,0x80d763b36932},{1908,0x9865adff7809},{1908,0x155813edbafb5},{1908,0x15c9fa73819c3},{1908,0x26f41e82c1745},{1908,0x2925b1d643600},{1908,0x29b98e863b543},{1908,0x2c34b3fa8ce3d},{1908,0x39eb2afd8c6f5},{1908,0x3c17236aaadb6},{1908,0x3e55d8ebcf37a},{1908,0x42f12ff95baca},{1908,0x474c802e307f3},{1908,0x4e47de4fec50a},{1908,0x615742abc6cd8},{1908,0x62644c61d41a9},{1908,0x67f0aa3f24f16},{1908,0x732556f7a6eea},{1908,0x759b9e1d172cf},{1908,0x780d2354ea04e},{1908,0x791e3d106d488},{1908,0x7d7c189577b5f},{1908,0x88b17558fd59c},{1908,0x8cf768b2f9c59},{1908,0x9893e4c91b515},{1908,0x9ba2e6ed64d52},{1908,0xa7f4d5037ea5b},{1908,0xaa9a51c83444d},{1908,0xac5f82f1c16e0},{1908,0xaefe9e502698f},{1908,0xb2126c657b770},{1908,0xb3abb0fcbeecb},{1908,0xcbbdcd53d6d8c},{1908,0xd54bc7474fd82},{1908,0xde3d37b4174a2},{1908,0xe68f8a1e943ec},{1908,0xe8368a4c56e71},{1908,0xeabadbb1d5062},{1908,0xed43f95143984},{1908,0xee3924e91090e},{1908,0xf03542dfb8370},{1908,0xf3f86883f2f1c},{1908,0xf955a027de71e},
{1909,0x80d763b36932},{1909,0x9865adff7809},{1909,0x155813edbafb5},{1909,0x26f41e82c1745},{1909,0x29b98e863b543},{1909,0x2c34b3fa8ce3d},{1909,0x3e55d8ebcf37a},{1909,0x4147a23551128},{1909,0x42f12ff95baca},{1909,0x474c802e307f3},{1909,0x54d86648024ce},{1909,0x5b587b9c9a8ce},{1909,0x615742abc6cd8},{1909,0x62644c61d41a9},{1909,0x6ff0327ba5e84},{1909,0x732556f7a6eea},{1909,0x791e3d106d488},{1909,0x7a81ce2f6b91d},{1909,0x7d7c189577b5f},{1909,0x88b17558fd59c},{1909,0x8dfa58763e81a},{1909,0xa8b14755df1c6},{1909,0xaefe9e502698f},{1909,0xb3abb0fcbeecb},{1909,0xb8b161be643b6},{1909,0xcbbdcd53d6d8c},{1909,0xd90380f32156a},{1909,0xdd80c561b6d37},{1909,0xde3d37b4174a2},{1909,0xe9e9c1b7ebeb8},{1909,0xeb96dd8497c1e},{1909,0xed43f95143984},{1909,0xf955a027de71e},{1909,0xfbaf149329d6e},
{1910,0x80d763b36932},{1910,0x26f41e82c1745},{1910,0x2c34b3fa8ce3d},{1910,0x3768e4eb6fce6},{1910,0x3d9966996ec0e},{1910,0x3e55d8ebcf37a},{1910,0x3f4671ae11fa7},{1910,0x42f12ff95baca},{1910,0x54d86648024ce},{1910,0x5b587b9c9a8ce},{1910,0x62644c61d41a9},{1910,0x6875c437cd172},{1910,0x68c738257adc9},{1910,0x6ff0327ba5e84},{1910,0x732556f7a6eea},{1910,0x791e3d106d488},{1910,0x7a81ce2f6b91d},{1910,0x88b17558fd59c},{1910,0x8deb4f26c3058},{1910,0x9d2d61cf74121},{1910,0xa8b14755df1c6},{1910,0xb3abb0fcbeecb},{1910,0xb8b161be643b6},{1910,0xc607c6264dad3},{1910,0xd6e0c07c52a6f},{1910,0xd90380f32156a},{1910,0xdc80e3528d388},{1910,0xdd80c561b6d37},{1910,0xde3d37b4174a2},{1910,0xe9e9c1b7ebeb8},{1910,0xeb96dd8497c1e},{1910,0xed43f95143984},{1910,0xf7672f7dd7f12},{1910,0xf955a027de71e},{1910,0xfe070f4ff9f80},
{1911,0xbbbb1d718e4c},{1911,0xe94de68443bd},{1911,0x1015251e44f21},{1911,0x1d51d340a3860},{1911,0x1d6c9bbaea422},{1911,0x26f41e82c1745},{1911,0x2c34b3fa8ce3d},{1911,0x3768e4eb6fce6},{1911,0x39eb2afd8c6f5},{1911,0x3f4671ae11fa7},{1911,0x42f12ff95baca},{1911,0x47ddab541e287},{1911,0x55b37a189461e},{1911,0x585f5ec88ad7c},{1911,0x5ebca4b89aaab},{1911,0x62644c61d41a9},{1911,0x6ff0327ba5e84},{1911,0x732556f7a6eea},{1911,0x7427f227ca294},{1911,0x791e3d106d488},{1911,0x7a81ce2f6b91d},{1911,0x88b17558fd59c},{1911,0x8deb4f26c3058},{1911,0x9d2d61cf74121},{1911,0xa8b14755df1c6},{1911,0xb3abb0fcbeecb},{1911,0xc3773f84fb334},{1911,0xc8da7158c2c90},{1911,0xd6e0c07c52a6f},{1911,0xd90380f32156a},{1911,0xdc80e3528d388},{1911,0xde3d37b4174a2},{1911,0xdec480118395d},{1911,0xe3b5ff5dca98e},{1911,0xe4e26e51e8686},{1911,0xe92c908d7fe44},{1911,0xeac04f9e41d6b},{1911,0xeb96dd8497c1e},{1911,0xec6d6b6aedad1},{1911,0xed43f95143984},{1911,0xf03542dfb8370},{1911,0xf5a584509ec82},
{1912,0xb7cb60c994da},{1912,0xbbbb1d718e4c},{1912,0x1d6c9bbaea422},{1912,0x22d36e6a52aa0},{1912,0x24343289fc5cf},{1912,0x2c34b3fa8ce3d},{1912,0x3768e4eb6fce6},{1912,0x47ddab541e287},{1912,0x4c525508f8074},{1912,0x55b37a189461e},{1912,0x62644c61d41a9},{1912,0x6ff0327ba5e84},{1912,0x732556f7a6eea},{1912,0x7b380e5705cc6},{1912,0x8088530f34fa1},{1912,0x883632ef48928},{1912,0x8deb4f26c3058},{1912,0x91998ac2a5572},{1912,0x9b4e4b3e5110f},{1912,0xa0946639abd83},{1912,0xa8b14755df1c6},{1912,0xaf14abb25b3c9},{1912,0xb614436d6d27d},{1912,0xb94be2b70ee78},{1912,0xbfc903e918e1b},{1912,0xc948676ddcfe8},{1912,0xd0eef925f20fd},{1912,0xd90380f32156a},{1912,0xdc80e3528d388},{1912,0xdec480118395d},{1912,0xe11808c0509d7},{1912,0xe91333d196005},{1912,0xeb96dd8497c1e},{1912,0xed43f95143984},{1912,0xf09c273b07dad},{1912,0xf51bacd8a6191},{1912,0xfaf8d46b8f9c5},{1912,0xfc0ba3ed461bf},
{1913,0xb7cb60c994da},{1913,0x22d36e6a52aa0},{1913,0x24343289fc5cf},{1913,0x2c34b3fa8ce3d},{1913,0x3768e4eb6fce6},{1913,0x3f61ef335887d},{1913,0x434c3f75e83bc},{1913,0x455a01a11c66e},{1913,0x47ddab541e287},{1913,0x498ac720c9fed},{1913,0x4c525508f8074},{1913,0x5102e790c6349},{1913,0x62644c61d41a9},{1913,0x65c25ae018e33},{1913,0x6da4afd674103},{1913,0x6ff0327ba5e84},{1913,0x8058a62ca6667},{1913,0x8088530f34fa1},{1913,0x817c594dbff96},{1913,0x8739d11afbffd},{1913,0x8deb4f26c3058},{1913,0x949ccd328a0b4},{1913,0x9b4e4b3e5110f},{1913,0xa0946639abd83},{1913,0xa1f4a7a0b2223},{1913,0xa1ffc94a1816b},{1913,0xa8b14755df1c6},{1913,0xaf14abb25b3c9},{1913,0xb09cd9f134f49},{1913,0xb2992c55c5492},{1913,0xb94be2b70ee78},{1913,0xbfac732597b70},{1913,0xd90380f32156a},{1913,0xdc80e3528d388},{1913,0xe91333d196005},{1913,0xeb96dd8497c1e},{1913,0xeba033cba5559},{1913,0xed43f95143984},{1913,0xf174bed0f1303},
{1914,0xb7cb60c994da},{1914,0x272457cbcab36},{1914,0x2c34b3fa8ce3d},{1914,0x3768e4eb6fce6},{1914,0x37ae4134861c2},{1914,0x3db674441f9af},{1914,0x41293c216ecef},{1914,0x434c3f75e83bc},{1914,0x444ae4a535c6a},{1914,0x47ddab541e287},{1914,0x4c525508f8074},{1914,0x4cecb1e8807a0},{1914,0x4f8afecdb7157},{1914,0x5102e790c6349},{1914,0x62644c61d41a9},{1914,0x63c531affee9d},{1914,0x65c25ae018e33},{1914,0x817c594dbff96},{1914,0x8739d11afbffd},{1914,0x8deb4f26c3058},{1914,0x949ccd328a0b4},{1914,0x994efd792fff9},{1914,0x9b4e4b3e5110f},{1914,0xa1f4a7a0b2223},{1914,0xa8b14755df1c6},{1914,0xaf14abb25b3c9},{1914,0xb2992c55c5492},{1914,0xbd70baa531cb0},{1914,0xca28bd90c2390},{1914,0xd90380f32156a},{1914,0xeb96dd8497c1e},{1914,0xeba033cba5559},{1914,0xf174bed0f1303},{1914,0xfddc8cfd6f74a},
{1915,0xa5d66c525d18},{1915,0xb7cb60c994da},{1915,0x2c34b3fa8ce3d},{1915,0x3768e4eb6fce6},{1915,0x41293c216ecef},{1915,0x4c525508f8074},{1915,0x4eaa9e4cdf1df},{1915,0x561d179fd2c6a},{1915,0x62644c61d41a9},{1915,0x63c531affee9d},{1915,0x65c25ae018e33},{1915,0x716ce24cfcff3},{1915,0x77f1a5cfa3778},{1915,0x8013ec5f76050},{1915,0x83a99c3ec7eaf},{1915,0x8739d11afbffd},{1915,0x994efd792fff9},{1915,0xa8b14755df1c6},{1915,0xaf14abb25b3c9},{1915,0xb2992c55c5492},{1915,0xb87a66b3d720a},{1915,0xbfc903e918e1b},{1915,0xc6d1dfb4ce25a},{1915,0xcba2cec5e9275},{1915,0xd131eeb1bcb39},{1915,0xd90380f32156a},{1915,0xdb4636da480b1},{1915,0xe8746dd439562},{1915,0xf174bed0f1303},{1915,0xf5ffed734eace},{1915,0xfddc8cfd6f74a},
{1916,0xb883ab2fae0},{1916,0x5e837abe1981},{1916,0xa5d66c525d18},{1916,0xb7cb60c994da},{1916,0xf5d209258be1},{1916,0x2a800a3a94d11},{1916,0x362717f1ae8e2},{1916,0x3768e4eb6fce6},{1916,0x4c525508f8074},{1916,0x561d179fd2c6a},{1916,0x57ad455d89a2f},{1916,0x62644c61d41a9},{1916,0x63c531affee9d},{1916,0x6af237b3ed8ee},{1916,0x77f1a5cfa3778},{1916,0x845b21facc07e},{1916,0x84aca18504612},{1916,0x855defe3167f6},{1916,0x8739d11afbffd},{1916,0x89921a5ee3167},{1916,0x994efd792fff9},{1916,0x9969108e62da0},{1916,0xa3816a820a70c},{1916,0xa8b14755df1c6},{1916,0xaa6dc578424f4},{1916,0xaf14abb25b3c9},{1916,0xb87a66b3d720a},{1916,0xbee06117c69d1},{1916,0xc52d714651a3d},{1916,0xc561de251097e},{1916,0xc6d1dfb4ce25a},{1916,0xd90380f32156a},{1916,0xf90327980ac9c},{1916,0xf9c4007f2c8e1},{1916,0xfddc8cfd6f74a},
{1917,0x986d8decfe65},{1917,0xb7cb60c994da},{1917,0x1724847955f9d},{1917,0x23133483e16ca},{1917,0x362717f1ae8e2},{1917,0x3768e4eb6fce6},{1917,0x3d79dd95e672c},{1917,0x44185183b955b},{1917,0x4814abc8ced76},{1917,0x49835e6890548},{1917,0x51939071abb8d},{1917,0x5272e34d7e13d},{1917,0x561d179fd2c6a},{1917,0x57ad455d89a2f},{1917,0x616be6bc7e791},{1917,0x62644c61d41a9},{1917,0x63c531affee9d},{1917,0x6d3c1ccd4f674},{1917,0x6f6c2fa3c6d54},{1917,0x77f1a5cfa3778},{1917,0x7916046774c75},{1917,0x84aca18504612},{1917,0x855defe3167f6},{1917,0x8739d11afbffd},{1917,0x89921a5ee3167},{1917,0x90a256bccd5bd},{1917,0x955d9dce83384},{1917,0x98360641bd4c1},{1917,0x98fbe61e64d55},{1917,0x994efd792fff9},{1917,0x9969108e62da0},{1917,0xaa6dc578424f4},{1917,0xac8bb6a94badd},{1917,0xb87a66b3d720a},{1917,0xba210e7c56703},{1917,0xbee06117c69d1},{1917,0xc07ee8cd1446f},{1917,0xc144974139eae},{1917,0xc52d714651a3d},{1917,0xc6d1dfb4ce25a},{1917,0xd90380f32156a},{1917,0xd9b8540c403bf},{1917,0xed1e6b72bfde5},{1917,0xf9c4007f2c8e1},{1917,0xfddc8cfd6f74a},
{1918,0x986d8decfe65},{1918,0xb7cb60c994da},{1918,0x1724847955f9d},{1918,0x1e59767a7963a},{1918,0x22bf352f15f03},{1918,0x23133483e16ca},{1918,0x243f383249748},{1918,0x2c7d432e009c1},{1918,0x3d79dd95e672c},{1918,0x49835e6890548},{1918,0x516aeb2bfff2f},{1918,0x51939071abb8d},{1918,0x5272e34d7e13d},{1918,0x533e4ef2c6b82},{1918,0x57ad455d89a2f},{1918,0x5f38c9606a1d9},{1918,0x616be6bc7e791},{1918,0x61ac9a369116f},{1918,0x62644c61d41a9},{1918,0x6af237b3ed8ee},{1918,0x6d3c1ccd4f674},{1918,0x77f1a5cfa3778},{1918,0x79f891f06951e},{1918,0x83a99c3ec7eaf},{1918,0x8739d11afbffd},{1918,0x98fbe61e64d55},{1918,0x994efd792fff9},{1918,0xac8bb6a94badd},{1918,0xb1a5373591a93},{1918,0xb87a66b3d720a},{1918,0xba210e7c56703},{1918,0xbfa73fe1540a0},{1918,0xc144974139eae},{1918,0xc6d1dfb4ce25a},{1918,0xd039d4104cd77},{1918,0xdf90921f54afc},{1918,0xe1330fc6600c3},{1918,0xe1f65f07f7638},{1918,0xe494034e79e5b},{1918,0xed1e6b72bfde5},{1918,0xf01a2bbb7e9c0},{1918,0xf37e5578c0383},{1918,0xfddc8cfd6f74a},
{1919,0xb7cb60c994da},{1919,0x1035a9c6f22b2},{1919,0x1724847955f9d},{1919,0x5297d943a60a8},{1919,0x52c9a3cabab1b},{1919,0x56e8a94896458},{1919,0x57ad455d89a2f},{1919,0x616be6bc7e791},{1919,0x617efd883483b},{1919,0x61bdf82c7cd33},{1919,0x62644c61d41a9},{1919,0x6591faf6f6abd},{1919,0x685199ff93b61},{1919,0x6af237b3ed8ee},{1919,0x6d3c1ccd4f674},{1919,0x77f1a5cfa3778},{1919,0x79f891f06951e},{1919,0x83a99c3ec7eaf},{1919,0x8739d11afbffd},{1919,0xa2f89c631f260},{1919,0xac8bb6a94badd},{1919,0xb1a5373591a93},{1919,0xb41ecfc6a0e85},{1919,0xb49add1758d66},{1919,0xb87a66b3d720a},{1919,0xbd41069fc805e},{1919,0xc245776539596},{1919,0xc54184680748f},{1919,0xc5aec5a0e8f29},{1919,0xd039d4104cd77},{1919,0xd5ff6645433db},{1919,0xe1330fc6600c3},{1919,0xe1f65f07f7638},{1919,0xe494034e79e5b},
{1920,0x492abe88bda0},{1920,0x630e29146867},{1920,0xb33462c1c58d},{1920,0xb7cb60c994da},{1920,0x1035a9c6f22b2},{1920,0x1724847955f9d},{1920,0x2d78e20567eca},{1920,0x3ad586e3c3bb9},{1920,0x52c9a3cabab1b},{1920,0x573aa937dc39d},{1920,0x5cf295389fb77},{1920,0x600bc991f9120},{1920,0x60ed707e41ea3},{1920,0x616be6bc7e791},{1920,0x61bdf82c7cd33},{1920,0x62644c61d41a9},{1920,0x6af237b3ed8ee},{1920,0x8739d11afbffd},{1920,0x9356b59242e10},{1920,0x9c31d9538bac2},{1920,0xa2f89c631f260},{1920,0xb49add1758d66},{1920,0xb87a66b3d720a},{1920,0xbba9fe6b3d4de},{1920,0xc245776539596},{1920,0xc5aec5a0e8f29},{1920,0xcb0c3f44a1407},{1920,0xced02eb99a58b},{1920,0xd5ff6645433db},{1920,0xe1330fc6600c3},{1920,0xe9eec9a403ec3},{1920,0xebd8cb0940d88},{1920,0xeeb68f8e62123},{1920,0xfcce9d1266646},
{1921,0x492abe88bda0},{1921,0xb33462c1c58d},{1921,0xb7cb60c994da},{1921,0xb8f0ec0220ad},{1921,0xd9744a1742f5},{1921,0x1970c2010f269},{1921,0x21e95f6ea99c5},{1921,0x2896bf701c890},{1921,0x2d78e20567eca},{1921,0x2f8117e6ba112},{1921,0x35c43fcf492fd},{1921,0x3908649c263cf},{1921,0x3ad586e3c3bb9},{1921,0x600bc991f9120},{1921,0x60ed707e41ea3},{1921,0x62a2179c19b6c},{1921,0x65efd41917bc8},{1921,0x6b6f027adb6c4},{1921,0x73b09ec687b4b},{1921,0x9356b59242e10},{1921,0x94c96449695ee},{1921,0xa2f89c631f260},{1921,0xa7c0624d7d4c0},{1921,0xbba9fe6b3d4de},{1921,0xc0ac620613204},{1921,0xc5aec5a0e8f29},{1921,0xc7f4f9c8b358b},{1921,0xcda47c2c2d580},{1921,0xd5ff6645433db},{1921,0xe1330fc6600c3},{1921,0xe494034e79e5b},{1921,0xe9eec9a403ec3},{1921,0xebd8cb0940d88},{1921,0xeeb68f8e62123},{1921,0xeebd41af0f023},{1921,0xf02ff06635801},{1921,0xf85836b735c39},
{1922,0x492abe88bda0},{1922,0xa4ac49201c42},{1922,0xb33462c1c58d},{1922,0xb7cb60c994da},{1922,0x15380d61c7fd8},{1922,0x1659dcd7eb4c0},{1922,0x2896bf701c890},{1922,0x28cddba0110fe},{1922,0x2d78e20567eca},{1922,0x2f8117e6ba112},{1922,0x35c43fcf492fd},{1922,0x36105b552f218},{1922,0x3ad586e3c3bb9},{1922,0x41087563fd8e9},{1922,0x4bf4b0bd675d8},{1922,0x502769c9a2dd9},{1922,0x5608b7bd44b05},{1922,0x574312d525b82},{1922,0x599e8c2d0b4cd},{1922,0x60ed707e41ea3},{1922,0x6b6f027adb6c4},{1922,0x77652a33ea1dc},{1922,0x8a535354a8f43},{1922,0x90cce9422a853},{1922,0x9273c780a9881},{1922,0x94c96449695ee},{1922,0xaca2d39abbd6e},{1922,0xb185a114e0c3b},{1922,0xbba9fe6b3d4de},{1922,0xbe45219071182},{1922,0xc15172626c4ee},{1922,0xc5aec5a0e8f29},{1922,0xcda47c2c2d580},{1922,0xe1330fc6600c3},{1922,0xe494034e79e5b},{1922,0xeebd41af0f023},{1922,0xf7c6a9ad432a0},
{1923,0x492abe88bda0},{1923,0xa4ac49201c42},{1923,0xb33462c1c58d},{1923,0xb7cb60c994da},{1923,0x109341dc24913},{1923,0x1659dcd7eb4c0},{1923,0x20a1d0c0a5bd2},{1923,0x2896bf701c890},{1923,0x28cddba0110fe},{1923,0x2d78e20567eca},{1923,0x3ad586e3c3bb9},{1923,0x3b12bef004f3d},{1923,0x47e17e7814ce7},{1923,0x526f061ca9053},{1923,0x60ed707e41ea3},{1923,0x77652a33ea1dc},{1923,0x89b842afc30aa},{1923,0x8a535354a8f43},{1923,0x90cce9422a853},{1923,0x9273c780a9881},{1923,0x94c96449695ee},{1923,0x9bccf38391ed0},{1923,0xa1c6aae8879c8},{1923,0xa25fa3a5d3614},{1923,0xa63b73d6b3e99},{1923,0xc15172626c4ee},{1923,0xc3436fe114b78},{1923,0xc5aec5a0e8f29},{1923,0xcce0f4f92a9f3},{1923,0xd78e1d752ac80},{1923,0xe1330fc6600c3},{1923,0xe494034e79e5b},{1923,0xeb89772f25e8f},{1923,0xeebd41af0f023},{1923,0xefe88108f99bb},{1923,0xf7c6a9ad432a0},{1923,0xfd90109ec9924},
{1924,0x882bdee26d41},{1924,0xb33462c1c58d},{1924,0xb7cb60c994da},{1924,0x109341dc24913},{1924,0x28cddba0110fe},{1924,0x2d78e20567eca},{1924,0x3ad586e3c3bb9},{1924,0x3b12bef004f3d},{1924,0x473ddffe3228a},{1924,0x47e17e7814ce7},{1924,0x526f061ca9053},{1924,0x53a4d4c8159d5},{1924,0x56a1b07a90751},{1924,0x58b75d0168213},{1924,0x60ed707e41ea3},{1924,0x7608a5c092e3b},{1924,0x77652a33ea1dc},{1924,0x90cce9422a853},{1924,0x9273c780a9881},{1924,0x93136807730da},{1924,0x94c96449695ee},{1924,0x9bccf38391ed0},{1924,0x9c5b4e4b2b365},{1924,0xa1c6aae8879c8},{1924,0xa25fa3a5d3614},{1924,0xa63b73d6b3e99},{1924,0xaee153720b84a},{1924,0xc15172626c4ee},{1924,0xc3436fe114b78},{1924,0xcce0f4f92a9f3},{1924,0xd27d8528f8cd3},{1924,0xd78e1d752ac80},{1924,0xdd0610893e41b},{1924,0xde510017764d9},{1924,0xeb89772f25e8f},{1924,0xee6a132fbc2fd},{1924,0xeebd41af0f023},{1924,0xf3b8a368edb4e},
{1925,0x9fe48335be1c},{1925,0xa248662aed2f},{1925,0xb7cb60c994da},{1925,0x109341dc24913},{1925,0x11caa431defcc},{1925,0x15380d61c7fd8},{1925,0x186bbd43cbf42},{1925,0x229859f3ca71a},{1925,0x2edc82110c2f9},{1925,0x3ad586e3c3bb9},{1925,0x47e17e7814ce7},{1925,0x526f061ca9053},{1925,0x53a4d4c8159d5},{1925,0x56a1b07a90751},{1925,0x5a8610ba39fce},{1925,0x6d2aa2fc5f2b4},{1925,0x77652a33ea1dc},{1925,0x7a93a2954f3b7},{1925,0x8394722a7ae9e},{1925,0x9273c780a9881},{1925,0x93136807730da},{1925,0x94c96449695ee},{1925,0x9fd41412abfc4},{1925,0xa1d55bddba71c},{1925,0xa63b73d6b3e99},{1925,0xb7bcec04f3e4e},{1925,0xc851bc531e4ff},{1925,0xc8e27582ece94},{1925,0xe522176b1dfba},{1925,0xeb89772f25e8f},{1925,0xee6a132fbc2fd},{1925,0xeebd41af0f023},
{1926,0x9fe48335be1c},{1926,0xb7cb60c994da},{1926,0x15380d61c7fd8},{1926,0x3ad586e3c3bb9},{1926,0x422b34992ca48},{1926,0x44b48a4baf669},{1926,0x47e17e7814ce7},{1926,0x526f061ca9053},{1926,0x54b812532db58},{1926,0x6d2aa2fc5f2b4},{1926,0x77652a33ea1dc},{1926,0x7a93a2954f3b7},{1926,0x7c474cc935816},{1926,0x8cdca9072bb64},{1926,0x8f65feb9ae785},{1926,0x94c96449695ee},{1926,0xa34518c1c5086},{1926,0xa63b73d6b3e99},{1926,0xb78ef4acd0696},{1926,0xbd4d32aeee785},{1926,0xc639734989e8c},{1926,0xc851bc531e4ff},{1926,0xc8e27582ece94},{1926,0xdca0c8da304c2},{1926,0xee6a132fbc2fd},{1926,0xeebd41af0f023},
{1927,0x1d30b1d0fdc2e},{1927,0x33d28a65889eb},{1927,0x422b34992ca48},{1927,0x4556574c152f1},{1927,0x47e17e7814ce7},{1927,0x526f061ca9053},{1927,0x538d8e63d4008},{1927,0x56a9d82231aef},{1927,0x6d2aa2fc5f2b4},{1927,0x7a93a2954f3b7},{1927,0x8f65feb9ae785},{1927,0xa34518c1c5086},{1927,0xb78ef4acd0696},{1927,0xbd4d32aeee785},{1927,0xc851bc531e4ff},{1927,0xc8e27582ece94},{1927,0xce04c322adb30},{1927,0xd9388b3aa30a5},{1927,0xee6a132fbc2fd},{1927,0xef294a1c5ae5c},{1927,0xf52486d531cce},
{1928,0x3e48c8bab7da},{1928,0xf38c8abb2db5},{1928,0x1a379bf0f90c6},{1928,0x1beeb9effb6c9},{1928,0x1e2a8daa56418},{1928,0x21e525c7329fc},{1928,0x357c881c9eda3},{1928,0x4320c84118d1f},{1928,0x47e17e7814ce7},{1928,0x4cbbff4d19a22},{1928,0x526f061ca9053},{1928,0x5760e7672f2b0},{1928,0x5a8610ba39fce},{1928,0x693b215ae6917},{1928,0x781e6b0ffbe4d},{1928,0x7a93a2954f3b7},{1928,0x8f65feb9ae785},{1928,0x9e8302a6a34db},{1928,0x9f890622ab7ab},{1928,0xa9e616e7f922e},{1928,0xb12794e8c87c1},{1928,0xc851bc531e4ff},{1928,0xce04c322adb30},{1928,0xd2124875a1882},{1928,0xd9388b3aa30a5},{1928,0xe4798eb519a45},{1928,0xf52486d531cce},{1928,0xf5cd0f8b36243},
{1929,0xb18fc330d39},{1929,0x3e48c8bab7da},{1929,0xc3a089bb791f},{1929,0x114b5b565d9bf},{1929,0x1a379bf0f90c6},{1929,0x1beeb9effb6c9},{1929,0x1d8d8971d411c},{1929,0x21e525c7329fc},{1929,0x21fe33a0bbc63},{1929,0x25e30581e0261},{1929,0x2ee10a47f091a},{1929,0x34f6588f0bb28},{1929,0x47e17e7814ce7},{1929,0x4ac7e72ee0eb9},{1929,0x4b412e42a5540},{1929,0x4e9b76a5c4f86},{1929,0x4ffca04ae984c},{1929,0x526f061ca9053},{1929,0x5760e7672f2b0},{1929,0x5a8610ba39fce},{1929,0x6271436b26a94},{1929,0x693b215ae6917},{1929,0x781e6b0ffbe4d},{1929,0x7a93a2954f3b7},{1929,0x7b38b9aace2a9},{1929,0x7c8489b06ea54},{1929,0x8f65feb9ae785},{1929,0x9f890622ab7ab},{1929,0xa7d5fcafd75cc},{1929,0xa9e616e7f922e},{1929,0xabd29a455160a},{1929,0xb08c159510605},{1929,0xb12794e8c87c1},{1929,0xd2124875a1882},{1929,0xd3260ddefd248},{1929,0xd9388b3aa30a5},
{1930,0xc3a089bb791f},{1930,0x11c21e5e359d6},{1930,0x133e733fbaf7a},{1930,0x1a379bf0f90c6},{1930,0x1c97b913b1fe2},{1930,0x1d8d8971d411c},{1930,0x21fe33a0bbc63},{1930,0x29f6a97bb120f},{1930,0x34f6588f0bb28},{1930,0x40348b1e0d117},{1930,0x47e17e7814ce7},{1930,0x4e9b76a5c4f86},{1930,0x526f061ca9053},{1930,0x5760e7672f2b0},{1930,0x781e6b0ffbe4d},{1930,0x7a93a2954f3b7},{1930,0x7b38b9aace2a9},{1930,0x7c8489b06ea54},{1930,0x85e081980671f},{1930,0x8f65feb9ae785},{1930,0x92570ce9935ae},{1930,0x96c2dd2617f97},{1930,0x96d60f4c9b90b},{1930,0x9f890622ab7ab},{1930,0xa0a2397580fe4},{1930,0xa3aa8dbfafdac},{1930,0xa7d5fcafd75cc},{1930,0xa98e7a101c6eb},{1930,0xa9e616e7f922e},{1930,0xabd29a455160a},{1930,0xb12794e8c87c1},{1930,0xb36dd65f85738},{1930,0xbc6ee8f417582},{1930,0xd1c4b2f29c4f5},{1930,0xd3260ddefd248},{1930,0xd6dad23680f1f},{1930,0xd9388b3aa30a5},{1930,0xda52347628a79},{1930,0xe01763112c3f9},{1930,0xe1648180af927},{1930,0xe5caa0212252e},{1930,0xf7b6cb9fe73e0},
{1931,0x1a379bf0f90c6},{1931,0x1c97b913b1fe2},{1931,0x29f6a97bb120f},{1931,0x34f6588f0bb28},{1931,0x39fc503d70949},{1931,0x3a19b0e4ae235},{1931,0x3f4d38ca34c52},{1931,0x40348b1e0d117},{1931,0x47e17e7814ce7},{1931,0x4e9b76a5c4f86},{1931,0x526f061ca9053},{1931,0x5d6ceab33d055},{1931,0x5e5c8a673ddb6},{1931,0x6233041441b9e},{1931,0x62ea686bfa47c},{1931,0x64bfd7cf2e4dd},{1931,0x78b2a0c191855},{1931,0x7c8489b06ea54},{1931,0x8f65feb9ae785},{1931,0x96d60f4c9b90b},{1931,0x9f890622ab7ab},{1931,0xa4a9423609688},{1931,0xa9e616e7f922e},{1931,0xabd29a455160a},{1931,0xb12794e8c87c1},{1931,0xb4fe0e95cc5a9},{1931,0xbc3ad676e9ef7},{1931,0xcb791a84f5678},{1931,0xd1c4b2f29c4f5},{1931,0xd3260ddefd248},{1931,0xd9388b3aa30a5},{1931,0xda52347628a79},{1931,0xecc3c8d26067a},{1931,0xf4485dc796332},{1931,0xf7b6cb9fe73e0},
{1932,0xd24f59626544},{1932,0x15e1ff01c0767},{1932,0x19099e254c450},{1932,0x2180bdb5ee1d7},{1932,0x27c35704a5e67},{1932,0x34f6588f0bb28},{1932,0x39fc503d70949},{1932,0x3a19b0e4ae235},{1932,0x3c1fb09e53aaa},{1932,0x40348b1e0d117},{1932,0x4e9b76a5c4f86},{1932,0x512b7cccfa90f},{1932,0x526f061ca9053},{1932,0x5480aa18a194e},{1932,0x5623c8ee47f44},{1932,0x5d6ceab33d055},{1932,0x64bfd7cf2e4dd},{1932,0x66592b4dd875c},{1932,0x670e6c3335f26},{1932,0x6ccfcd628a8d8},{1932,0x78b2a0c191855},{1932,0x7a994cd9ecb60},{1932,0x7c8489b06ea54},{1932,0x8ac6d426a1cb1},{1932,0x96d60f4c9b90b},{1932,0x9f890622ab7ab},{1932,0xa9e616e7f922e},{1932,0xabd29a455160a},{1932,0xb12794e8c87c1},{1932,0xb4fe0e95cc5a9},{1932,0xbced9d4c6a112},{1932,0xc00e65edcdfc4},{1932,0xd9388b3aa30a5},{1932,0xda52347628a79},{1932,0xe263b82aa728c},{1932,0xef62d051abff2},{1932,0xf4485dc796332},{1932,0xf4f44e1aee716},{1932,0xf7b6cb9fe73e0},
{1933,0xd24f59626544},{1933,0x19099e254c450},{1933,0x2180bdb5ee1d7},{1933,0x23f7c8ab5e36d},{1933,0x27c35704a5e67},{1933,0x34f6588f0bb28},{1933,0x3a19b0e4ae235},{1933,0x4b94697e06247},{1933,0x4e9b76a5c4f86},{1933,0x526f061ca9053},{1933,0x5623c8ee47f44},{1933,0x5d6ceab33d055},{1933,0x6211c94b9e995},{1933,0x64bfd7cf2e4dd},{1933,0x7831ac830f56a},{1933,0x7c8489b06ea54},{1933,0x807df11fa4786},{1933,0x8ac6d426a1cb1},{1933,0x96d60f4c9b90b},{1933,0xa1c7e26059b4e},{1933,0xa9e616e7f922e},{1933,0xb4fe0e95cc5a9},{1933,0xbf69df5efba1e},{1933,0xc00e65edcdfc4},{1933,0xd2306f73bc2ce},{1933,0xd9388b3aa30a5},{1933,0xda52347628a79},{1933,0xe263b82aa728c},{1933,0xe6520092b67c6},{1933,0xedec9e1ecd5f9},{1933,0xef62d051abff2},{1933,0xf7b6cb9fe73e0},
{1934,0x64a9897cde8b},{1934,0xb1340f06c8e4},{1934,0xd24f59626544},{1934,0x11e6d72f428fd},{1934,0x120e6f8adc69a},{1934,0x19099e254c450},{1934,0x2180bdb5ee1d7},{1934,0x237cf975bdbb0},{1934,0x23f7c8ab5e36d},{1934,0x26fffb5a2bfbc},{1934,0x3a19b0e4ae235},{1934,0x40af5a53ad8d4},{1934,0x4b94697e06247},{1934,0x5623c8ee47f44},{1934,0x5b85863f0fbb9},{1934,0x5d66ebfbfce3c},{1934,0x5d6ceab33d055},{1934,0x6211c94b9e995},{1934,0x64bfd7cf2e4dd},{1934,0x690e6abc5532f},{1934,0x7831ac830f56a},{1934,0x7fadcf5c0160b},{1934,0x8ac6d426a1cb1},{1934,0xa1c7e26059b4e},{1934,0xb5f3ad010d523},{1934,0xb820bd9a0690d},{1934,0xbabfc51952285},{1934,0xbf69df5efba1e},{1934,0xd9388b3aa30a5},{1934,0xe263b82aa728c},{1934,0xe3ac0f18d03ba},{1934,0xed4d2f2d2657c},{1934,0xef62d051abff2},{1934,0xf7b6cb9fe73e0},
{1935,0x2caec241129a},{1935,0x4181255fcb2e},{1935,0x4da2af6ec754},{1935,0xb1340f06c8e4},{1935,0xd24f59626544},{1935,0x120e6f8adc69a},{1935,0x14919901aa5ab},{1935,0x19099e254c450},{1935,0x1f2bb0931960b},{1935,0x2004ccbfbc206},{1935,0x2180bdb5ee1d7},{1935,0x23f7c8ab5e36d},{1935,0x27c35704a5e67},{1935,0x40af5a53ad8d4},{1935,0x5623c8ee47f44},{1935,0x580c6b0813182},{1935,0x5b85863f0fbb9},{1935,0x5d66ebfbfce3c},{1935,0x5d6ceab33d055},{1935,0x6a149cac7e532},{1935,0x6f696189ce587},{1935,0x71b42cc5cf601},{1935,0x761c85d2b59bb},{1935,0x7831ac830f56a},{1935,0x7fadcf5c0160b},{1935,0x8ac6d426a1cb1},{1935,0x8cfcc771b485c},{1935,0xa4b9122eee8d9},{1935,0xaf347cff6b206},{1935,0xb440205a0e4d8},{1935,0xb820bd9a0690d},{1935,0xbf69df5efba1e},{1935,0xcb5e183da4132},{1935,0xd2ab3ea95ca8b},{1935,0xd5114ab57f13c},{1935,0xe263b82aa728c},{1935,0xe3ac0f18d03ba},{1935,0xed4d2f2d2657c},{1935,0xef62d051abff2},{1935,0xf319a2d7d7f4e},{1935,0xf7b6cb9fe73e0},
{1936,0x2caec241129a},{1936,0x4da2af6ec754},{1936,0x60d30fcfdaad},{1936,0xb1340f06c8e4},{1936,0xe90d83da47bf},{1936,0x120e6f8adc69a},{1936,0x158c06d814575},{1936,0x2180bdb5ee1d7},{1936,0x27c35704a5e67},{1936,0x3013013fd83f9},{1936,0x31bebb8e15bd4},{1936,0x40af5a53ad8d4},{1936,0x4401ae80fc15c},{1936,0x5623c8ee47f44},{1936,0x5b85863f0fbb9},{1936,0x5fccf8081f4ed},{1936,0x636691946a278},{1936,0x6f696189ce587},{1936,0x7419df6cef683},{1936,0x761c85d2b59bb},{1936,0x7831ac830f56a},{1936,0x7a1e7da44c3a3},{1936,0x829739fa61ee3},{1936,0x8ac6d426a1cb1},{1936,0x98091552acc63},{1936,0xa173c8e0542df},{1936,0xa4b9122eee8d9},{1936,0xaf347cff6b206},{1936,0xb0e5b42632c89},{1936,0xb4beb39df7e56},{1936,0xbf69df5efba1e},{1936,0xcb5e183da4132},{1936,0xd5114ab57f13c},{1936,0xef62d051abff2},{1936,0xf319a2d7d7f4e},{1936,0xf7b6cb9fe73e0},{1936,0xfd0b907d37435},
{1937,0x2caec241129a},{1937,0xe90d83da47bf},{1937,0x120e6f8adc69a},{1937,0x15027cd42df0d},{1937,0x1c41f74340079},{1937,0x1f71d8921e08c},{1937,0x2180bdb5ee1d7},{1937,0x3013013fd83f9},{1937,0x3f7c544d9c57c},{1937,0x40af5a53ad8d4},{1937,0x4401ae80fc15c},{1937,0x5623c8ee47f44},{1937,0x5b85863f0fbb9},{1937,0x636691946a278},{1937,0x6c5c37d32d29c},{1937,0x7831ac830f56a},{1937,0x7a1e7da44c3a3},{1937,0x7af2477df48f4},{1937,0x7f7059c9c899a},{1937,0x8ac6d426a1cb1},{1937,0x976254e9071d5},{1937,0x98091552acc63},{1937,0x9ddc3d1071a9e},{1937,0xa173c8e0542df},{1937,0xa4b9122eee8d9},{1937,0xb4c0a6fafc1cb},{1937,0xb63a790382cde},{1937,0xbf69df5efba1e},{1937,0xc3b5f2d22c62b},{1937,0xd105f1658f1e9},{1937,0xef62d051abff2},{1937,0xf319a2d7d7f4e},{1937,0xf7532842a2377},{1937,0xf7b6cb9fe73e0},{1937,0xfb610c8e58167},{1937,0xfd0b907d37435},
{1938,0x183faeb54995},{1938,0x2caec241129a},{1938,0xad949154280f},{1938,0x120e6f8adc69a},{1938,0x15027cd42df0d},{1938,0x1c41f74340079},{1938,0x1f71d8921e08c},{1938,0x2180bdb5ee1d7},{1938,0x252aceb16f6c5},{1938,0x28984a1019e30},{1938,0x3dd3b55eef320},{1938,0x3f7c544d9c57c},{1938,0x4401ae80fc15c},{1938,0x4fa4a62addd34},{1938,0x5623c8ee47f44},{1938,0x59cdd9e9c9432},{1938,0x636691946a278},{1938,0x68c365101636c},{1938,0x71b42cc5cf601},{1938,0x741f5f85f62e9},{1938,0x7af2477df48f4},{1938,0x8ac6d426a1cb1},{1938,0x987775d660ac3},{1938,0x9b92a0b0f2b35},{1938,0x9bf50d239899e},{1938,0x9ddc3d1071a9e},{1938,0xa173c8e0542df},{1938,0xb4c0a6fafc1cb},{1938,0xb705f52ae6421},{1938,0xbcf5311e8212d},{1938,0xbf69df5efba1e},{1938,0xcac984582c73f},{1938,0xce2137f743381},{1938,0xe2880d53fd085},{1938,0xef62d051abff2},{1938,0xf319a2d7d7f4e},{1938,0xf7b6cb9fe73e0},{1938,0xf9b2026a55fd8},
{1939,0x2caec241129a},{1939,0xcda75482dcac},{1939,0x120e6f8adc69a},{1939,0x15027cd42df0d},{1939,0x17146739414bb},{1939,0x1840d929743c8},{1939,0x1f71d8921e08c},{1939,0x2180bdb5ee1d7},{1939,0x252aceb16f6c5},{1939,0x28984a1019e30},{1939,0x3dd3b55eef320},{1939,0x3ede99d102dc7},{1939,0x3f7c544d9c57c},{1939,0x4401ae80fc15c},{1939,0x46256788fb323},{1939,0x570b2596bd347},{1939,0x5b02b0f0ff445},{1939,0x636691946a278},{1939,0x64e191e79506c},{1939,0x70eef5c8b6dfd},{1939,0x7af2477df48f4},{1939,0x8945bdb4fafed},{1939,0x8ac6d426a1cb1},{1939,0x9ddc3d1071a9e},{1939,0x9f83bb3e44e93},{1939,0x9feab25e894c1},{1939,0xa173c8e0542df},{1939,0xae8c49ff60128},{1939,0xb705f52ae6421},{1939,0xbcf5311e8212d},{1939,0xc4e8f8d83d983},{1939,0xcac984582c73f},{1939,0xce2137f743381},{1939,0xda242cb092252},{1939,0xdf3a7e746a83a},{1939,0xe4ad548a261f5},{1939,0xef62d051abff2},{1939,0xf319a2d7d7f4e},{1939,0xf520039ae7e01},{1939,0xf7b6cb9fe73e0},{1939,0xf9b2026a55fd8},{1939,0xfd5cb8a83c99f},
{1940,0x40af023802d0},{1940,0xcda75482dcac},{1940,0x15027cd42df0d},{1940,0x1840d929743c8},{1940,0x1f71d8921e08c},{1940,0x252aceb16f6c5},{1940,0x28984a1019e30},{1940,0x316d36e49dbda},{1940,0x3aceed2c2200c},{1940,0x3cf2075de17bc},{1940,0x3dd3b55eef320},{1940,0x3f7c544d9c57c},{1940,0x5384270a02941},{1940,0x5701be573a81c},{1940,0x636691946a278},{1940,0x64e191e79506c},{1940,0x68761dd7ce7ea},{1940,0x70eef5c8b6dfd},{1940,0x7509e3c4d6824},{1940,0x7af2477df48f4},{1940,0x88b0fd6f13f3d},{1940,0x88f96dc9e51d0},{1940,0x8ac6d426a1cb1},{1940,0x8bfbf107c0ab9},{1940,0x8f5b6961036db},{1940,0x9ddc3d1071a9e},{1940,0x9feab25e894c1},{1940,0xa025d96ff0a07},{1940,0xb705f52ae6421},{1940,0xbcf5311e8212d},{1940,0xc4e8f8d83d983},{1940,0xc77345c7f8743},{1940,0xcac984582c73f},{1940,0xce2137f743381},{1940,0xcf6840c44863f},{1940,0xda242cb092252},{1940,0xdf3a7e746a83a},{1940,0xef62d051abff2},{1940,0xf319a2d7d7f4e},{1940,0xf7b6cb9fe73e0},
{1941,0x891bcd728672},{1941,0xcda75482dcac},{1941,0x1840d929743c8},{1941,0x23d4b13a27e5c},{1941,0x2ae1e66f98d99},{1941,0x2b0a474431b74},{1941,0x3dd3b55eef320},{1941,0x4066d88c7cab7},{1941,0x4c88f86f92b8b},{1941,0x509d2379acacc},{1941,0x50f39699f8eb7},{1941,0x5384270a02941},{1941,0x5701be573a81c},{1941,0x5a98e9f9726a1},{1941,0x5ab85e28a996e},{1941,0x5dfcecf1aa5d2},{1941,0x633a439045c67},{1941,0x636691946a278},{1941,0x737f50fc5ff7f},{1941,0x7509e3c4d6824},{1941,0x88f96dc9e51d0},{1941,0x8ac6d426a1cb1},{1941,0x8f5b6961036db},{1941,0x9ddc3d1071a9e},{1941,0xa025d96ff0a07},{1941,0xa9aceefd30591},{1941,0xab7853c4b7c71},{1941,0xb705f52ae6421},{1941,0xbcf5311e8212d},{1941,0xc293969114bd1},{1941,0xc3fe74995d448},{1941,0xcac984582c73f},{1941,0xce2137f743381},{1941,0xcf6840c44863f},{1941,0xd87e36909d8d5},{1941,0xe6627cb6427ef},{1941,0xeac4e386ea685},{1941,0xf319a2d7d7f4e},{1941,0xfd36150c18bde},{1941,0xffe46c08edd06},
{1942,0x716b7a1e2518},{1942,0xa227f2044760},{1942,0xcda75482dcac},{1942,0x185793412ad84},{1942,0x1e5bcc3aac1c9},{1942,0x2b0a474431b74},{1942,0x346efe519074a},{1942,0x3dd3b55eef320},{1942,0x4066d88c7cab7},{1942,0x41c2022a8e7b3},{1942,0x464b56c45fa78},{1942,0x47386c6c4def6},{1942,0x4c88f86f92b8b},{1942,0x509d2379acacc},{1942,0x52797a5929fdb},{1942,0x5ab85e28a996e},{1942,0x5dfcecf1aa5d2},{1942,0x6e3ae14e13328},{1942,0x7509e3c4d6824},{1942,0x88f96dc9e51d0},{1942,0x8ac6d426a1cb1},{1942,0x8f5b6961036db},{1942,0x945d10f85ad11},{1942,0x962a6bd7c6bd7},{1942,0x9ddc3d1071a9e},{1942,0xa025d96ff0a07},{1942,0xa3ccbefa08eee},{1942,0xa9aceefd30591},{1942,0xab73153014291},{1942,0xb13f2477cf049},{1942,0xb705f52ae6421},{1942,0xbcccc5ddfd7f9},{1942,0xbe19f6617a487},{1942,0xc1a78ca531718},{1942,0xce2137f743381},{1942,0xcf6840c44863f},{1942,0xdac7d2f01c83e},{1942,0xdae55ebd45717},{1942,0xe60980eb2dd36},{1942,0xe6627cb6427ef},{1942,0xe6e8944f9882c},{1942,0xfd36150c18bde},{1942,0xffe46c08edd06},
{1943,0x9c25427d70f},{1943,0x716b7a1e2518},{1943,0xa227f2044760},{1943,0xcda75482dcac},{1943,0x185793412ad84},{1943,0x1e16223da95f0},{1943,0x1e5bcc3aac1c9},{1943,0x2b0a474431b74},{1943,0x346efe519074a},{1943,0x392159d83fd35},{1943,0x3dd3b55eef320},{1943,0x4066d88c7cab7},{1943,0x428610e59e90b},{1943,0x47386c6c4def6},{1943,0x4c88f86f92b8b},{1943,0x52797a5929fdb},{1943,0x53ff5e185b0ff},{1943,0x5a01da870b6a2},{1943,0x6596d6598f3b4},{1943,0x6e3ae14e13328},{1943,0x7509e3c4d6824},{1943,0x7fbda1021051c},{1943,0x88f96dc9e51d0},{1943,0x8f5b6961036db},{1943,0x962a6bd7c6bd7},{1943,0x9ddc3d1071a9e},{1943,0xab73153014291},{1943,0xacf0e6d9513b7},{1943,0xaef0ac7d4c16c},{1943,0xb13f2477cf049},{1943,0xb705f52ae6421},{1943,0xb9e95d8471e0d},{1943,0xbe19f6617a487},{1943,0xce2137f743381},{1943,0xd526cfc0c6eab},{1943,0xda04420ff2e50},{1943,0xdae55ebd45717},{1943,0xdcfc8304be878},{1943,0xe60980eb2dd36},{1943,0xe6627cb6427ef},{1943,0xe7b91c088843d},{1943,0xe93effc7b9561},{1943,0xfedf1cc1a3329},{1943,0xffe46c08edd06},
{1944,0x7d8e2c0c57f7},{1944,0xcda75482dcac},{1944,0x12ac28fa8e65e},{1944,0x138e7da2c4ddd},{1944,0x195d64982f2c8},{1944,0x1b36dabf6a1ba},{1944,0x1e5bcc3aac1c9},{1944,0x29934036a66c8},{1944,0x2b0a474431b74},{1944,0x3a9bb38441f0d},{1944,0x3dd3b55eef320},{1944,0x4066d88c7cab7},{1944,0x427adc40f162e},{1944,0x428610e59e90b},{1944,0x4c88f86f92b8b},{1944,0x52797a5929fdb},{1944,0x53ff5e185b0ff},{1944,0x56db9acdd7c52},{1944,0x5a01da870b6a2},{1944,0x6e3ae14e13328},{1944,0x717da42878439},{1944,0x7d1cd5c11d465},{1944,0x7fbda1021051c},{1944,0x8ea1579886f36},{1944,0x962a6bd7c6bd7},{1944,0x9ddc3d1071a9e},{1944,0xab73153014291},{1944,0xad89b258022ad},{1944,0xb13f2477cf049},{1944,0xb16675b2d3fc9},{1944,0xb705f52ae6421},{1944,0xb7becf414929c},{1944,0xb877a957ac117},{1944,0xbfb02e37891e5},{1944,0xc064a0ff63bb3},{1944,0xc9a9b1c7c9dd3},{1944,0xc9c999a197ff2},{1944,0xd526cfc0c6eab},{1944,0xd76a8c431cf39},{1944,0xd806173f062e1},{1944,0xe60980eb2dd36},{1944,0xe6627cb6427ef},{1944,0xe7b91c088843d},{1944,0xf1b9242b4b8a1},{1944,0xffe46c08edd06},
{1945,0x653c5c249c86},{1945,0x7d8e2c0c57f7},{1945,0x19c737004a79f},{1945,0x1a7f08dfda4ad},{1945,0x1b36dabf6a1ba},{1945,0x1e5bcc3aac1c9},{1945,0x2b0a474431b74},{1945,0x3a9bb38441f0d},{1945,0x3dd3b55eef320},{1945,0x410602cdb61c8},{1945,0x427adc40f162e},{1945,0x428610e59e90b},{1945,0x4c88f86f92b8b},{1945,0x52797a5929fdb},{1945,0x52fed77305f36},{1945,0x53ff5e185b0ff},{1945,0x56db9acdd7c52},{1945,0x5a01da870b6a2},{1945,0x6909f3b92c83d},{1945,0x6920da74ed850},{1945,0x7d1cd5c11d465},{1945,0x7fbda1021051c},{1945,0x8676ccb77b39f},{1945,0x8734dcf4ae229},{1945,0x90381bead899b},{1945,0x9ddc3d1071a9e},{1945,0xa075376b51f67},{1945,0xb13f2477cf049},{1945,0xb16675b2d3fc9},{1945,0xb705f52ae6421},{1945,0xb7becf414929c},{1945,0xb877a957ac117},{1945,0xbfb02e37891e5},{1945,0xc9c999a197ff2},{1945,0xd696737fe68c6},{1945,0xd806173f062e1},{1945,0xddea26f012a2b},{1945,0xe29c8276c2016},{1945,0xe60980eb2dd36},{1945,0xe9e64445ffa52},{1945,0xef568ec47d9f1},{1945,0xf974553671855},{1945,0xffe46c08edd06},
{1946,0x653c5c249c86},{1946,0x129b2427aa377},{1946,0x1b36dabf6a1ba},{1946,0x24cd7275a9fd5},{1946,0x2b0a474431b74},{1946,0x2cf8d5756c49e},{1946,0x37efa5ade2bd6},{1946,0x3a9bb38441f0d},{1946,0x410602cdb61c8},{1946,0x428610e59e90b},{1946,0x521801695db92},{1946,0x53ff5e185b0ff},{1946,0x6920da74ed850},{1946,0x697fe29386f95},{1946,0x7412b2ee220dd},{1946,0x78e6a71fa8540},{1946,0x8676ccb77b39f},{1946,0x90381bead899b},{1946,0x90529a37b7e22},{1946,0x9ddc3d1071a9e},{1946,0xa075376b51f67},{1946,0xa1aaf66e6c578},{1946,0xb13f2477cf049},{1946,0xb4db66e7bd8b0},{1946,0xb7becf414929c},{1946,0xb877a957ac117},{1946,0xc35ce1f42f5db},{1946,0xc9c999a197ff2},{1946,0xd559bcd72044f},{1946,0xd696737fe68c6},{1946,0xd806173f062e1},{1946,0xddea26f012a2b},
{1947,0x653c5c249c86},{1947,0x129b2427aa377},{1947,0x1408a803cbf33},{1947,0x1b36dabf6a1ba},{1947,0x258b5861d09df},{1947,0x263f26a26fccb},{1947,0x2b0a474431b74},{1947,0x3a9bb38441f0d},{1947,0x3b92e45af6654},{1947,0x428610e59e90b},{1947,0x53ff5e185b0ff},{1947,0x5757333931ff5},{1947,0x57d2cba48c399},{1947,0x6708fcee40741},{1947,0x697fe29386f95},{1947,0x7412b2ee220dd},{1947,0x77fa1f3ce7b18},{1947,0x77fb57a58119a},{1947,0x78e6a71fa8540},{1947,0x90381bead899b},{1947,0x90529a37b7e22},{1947,0x9ddc3d1071a9e},{1947,0xa075376b51f67},{1947,0xa1aaf66e6c578},{1947,0xa36db6db6f7a9},{1947,0xa7be8d4fc7703},{1947,0xac9281814db66},{1947,0xad0e19eca7f0a},{1947,0xb13f2477cf049},{1947,0xb7becf414929c},{1947,0xb877a957ac117},{1947,0xc34c70a777a4c},{1947,0xc8d268cae38ab},{1947,0xc9c999a197ff2},{1947,0xd806173f062e1},{1947,0xdc4cefee983af},{1947,0xddea26f012a2b},{1947,0xf9f36d28b2c82},{1947,0xfbce95c1b20db},
{1948,0x31315c7cabcb},{1948,0x653c5c249c86},{1948,0xc4fcf81d1612},{1948,0x1408a803cbf33},{1948,0x1a7f08dfda4ad},{1948,0x1b36dabf6a1ba},{1948,0x1bad0b63018c3},{1948,0x258b5861d09df},{1948,0x29db69125e532},{1948,0x2b0a474431b74},{1948,0x428610e59e90b},{1948,0x489f1d3069962},{1948,0x5b046d818cd90},{1948,0x630047e6914a3},{1948,0x6909f3b92c83d},{1948,0x695f16683b953},{1948,0x697fe29386f95},{1948,0x6f5b67fd0def1},{1948,0x7412b2ee220dd},{1948,0x76075fa16910a},{1948,0x78e6a71fa8540},{1948,0x8aeb2e26acadb},{1948,0x90381bead899b},{1948,0x90529a37b7e22},{1948,0x9ddc3d1071a9e},{1948,0xa075376b51f67},{1948,0xa1aaf66e6c578},{1948,0xa36db6db6f7a9},{1948,0xa7be8d4fc7703},{1948,0xac9281814db66},{1948,0xb13f2477cf049},{1948,0xb711216d759e3},{1948,0xb7becf414929c},{1948,0xb877a957ac117},{1948,0xc34c70a777a4c},{1948,0xc3be5ae3fba24},{1948,0xd806173f062e1},{1948,0xdc4cefee983af},{1948,0xddea26f012a2b},{1948,0xe469c19d0851d},
{1949,0x31315c7cabcb},{1949,0xb8cedadf9e17},{1949,0xffe0c6034155},{1949,0x10bffb8eaaf1e},{1949,0x1408a803cbf33},{1949,0x1b36dabf6a1ba},{1949,0x1bad0b63018c3},{1949,0x29db69125e532},{1949,0x2c3df3a9c9e99},{1949,0x31eafbf7e9d8e},{1949,0x31ebf9a2cbc53},{1949,0x3770efd782f9c},{1949,0x3be8b54206f35},{1949,0x5568d18bc9167},{1949,0x5b046d818cd90},{1949,0x6509105322b55},{1949,0x695f16683b953},{1949,0x7412b2ee220dd},{1949,0x76075fa16910a},{1949,0x7ccb99298a177},{1949,0x81babfa8f1a05},{1949,0x8aeb2e26acadb},{1949,0x90381bead899b},{1949,0x90529a37b7e22},{1949,0x99ee5d4b7fdad},{1949,0xa075376b51f67},{1949,0xa1aaf66e6c578},{1949,0xa3a49eac271bf},{1949,0xb711216d759e3},{1949,0xbf2faf2db24c9},{1949,0xc34c70a777a4c},{1949,0xc3be5ae3fba24},{1949,0xca7da42ec4207},{1949,0xcb3c62e3a6adc},{1949,0xd806173f062e1},{1949,0xd827597c10066},{1949,0xdc4cefee983af},{1949,0xddea26f012a2b},{1949,0xeeba387785eb5},{1949,0xf2e536af02722},{1949,0xf46740c5a5daa},{1949,0xfca49eb272f8d},{1949,0xfdf7a8425bad6},
{1950,0x482b986ea5e6},{1950,0x10bffb8eaaf1e},{1950,0x175d77fd116dc},{1950,0x1bad0b63018c3},{1950,0x2690eb5ba9fa4},{1950,0x2c3df3a9c9e99},{1950,0x31eafbf7e9d8e},{1950,0x3770efd782f9c},{1950,0x3be8b54206f35},{1950,0x473104dfd0577},{1950,0x5028534bf5fbb},{1950,0x6509105322b55},{1950,0x76075fa16910a},{1950,0x7ccb99298a177},{1950,0x8681da8a31589},{1950,0x90381bead899b},{1950,0x90529a37b7e22},{1950,0x93e988aa5d004},{1950,0x95133c9b2c3a4},{1950,0x99ee5d4b7fdad},{1950,0xa3a49eac271bf},{1950,0xa6f4d21847a59},{1950,0xad5ae00cce5d1},{1950,0xafd2734c82218},{1950,0xb43cf9d9e3f44},{1950,0xbf2faf2db24c9},{1950,0xc34c70a777a4c},{1950,0xc3be5ae3fba24},{1950,0xce8ceb0ee277a},{1950,0xd806173f062e1},{1950,0xdc4cefee983af},{1950,0xddea26f012a2b},{1950,0xed4762d142cdc},{1950,0xeeba387785eb5},{1950,0xf2e536af02722},{1950,0xf46740c5a5daa},{1950,0xfa144913c5c9f},{1950,0xfca49eb272f8d},
{1951,0x482b986ea5e6},{1951,0xd507b4c65f6f},{1951,0x1229f513d100e},{1951,0x175d77fd116dc},{1951,0x1bad0b63018c3},{1951,0x2c3df3a9c9e99},{1951,0x3d450c9429b78},{1951,0x473104dfd0577},{1951,0x4c3c524645d1d},{1951,0x5279547d99bb9},{1951,0x5940dfe320c38},{1951,0x5c843735bee2a},{1951,0x7797df8c6611c},{1951,0x7ccb99298a177},{1951,0x8b5cfb3a84f92},{1951,0x90381bead899b},{1951,0x90529a37b7e22},{1951,0x93e988aa5d004},{1951,0x95133c9b2c3a4},{1951,0x99ee5d4b7fdad},{1951,0x9c260039b522f},{1951,0x9ec97dfbd37b6},{1951,0xa3a49eac271bf},{1951,0xa6f4d21847a59},{1951,0xad5ae00cce5d1},{1951,0xbc39781426aef},{1951,0xc0b420e704342},{1951,0xc34c70a777a4c},{1951,0xc8f098765c56d},{1951,0xcc4334015f74f},{1951,0xce8ceb0ee277a},{1951,0xd806173f062e1},{1951,0xdc4cefee983af},{1951,0xddea26f012a2b},{1951,0xdfd1d1d4a6443},{1951,0xe78c05bbe7c2e},{1951,0xed4762d142cdc},{1951,0xf46740c5a5daa},
{1952,0x1229f513d100e},{1952,0x175d77fd116dc},{1952,0x20e3e30d8a0af},{1952,0x21f33c314a1e6},{1952,0x2c3df3a9c9e99},{1952,0x3d450c9429b78},{1952,0x473104dfd0577},{1952,0x4c3c524645d1d},{1952,0x5279547d99bb9},{1952,0x5309bedf17009},{1952,0x5c843735bee2a},{1952,0x6483f5b7e7f4a},{1952,0x7797df8c6611c},{1952,0x7a952caffffbe},{1952,0x7ccb99298a177},{1952,0x8607e2bf3816e},{1952,0x90381bead899b},{1952,0x90529a37b7e22},{1952,0x95133c9b2c3a4},{1952,0x99ee5d4b7fdad},{1952,0x9c260039b522f},{1952,0xad5ae00cce5d1},{1952,0xae323e871e5bb},{1952,0xc34c70a777a4c},{1952,0xc5a2837e707fe},{1952,0xc8f098765c56d},{1952,0xcc4334015f74f},{1952,0xce8ceb0ee277a},{1952,0xddea26f012a2b},{1952,0xe78c05bbe7c2e},{1952,0xea1c894d260f7},{1952,0xf46740c5a5daa},
{1953,0xcdf97e4caf19},{1953,0xf589a06750ac},{1953,0x135b0901c33c4},{1953,0x175d77fd116dc},{1953,0x226383bee3c8e},{1953,0x276733ea4a33c},{1953,0x2c3df3a9c9e99},{1953,0x473104dfd0577},{1953,0x5279547d99bb9},{1953,0x5309bedf17009},{1953,0x5922eb3481004},{1953,0x59a6361ac9641},{1953,0x59b1c34abbc8e},{1953,0x6483f5b7e7f4a},{1953,0x7ccb99298a177},{1953,0x8810ceab16572},{1953,0x90529a37b7e22},{1953,0x95133c9b2c3a4},{1953,0x98d626ace7c91},{1953,0x99ee5d4b7fdad},{1953,0x9c260039b522f},{1953,0xa683eeb0aca03},{1953,0xad5ae00cce5d1},{1953,0xbd3791c26ef8c},{1953,0xc34c70a777a4c},{1953,0xc8f098765c56d},{1953,0xcc4334015f74f},{1953,0xcedcf575ffab6},{1953,0xddea26f012a2b},{1953,0xec56abdbd100f},{1953,0xf3561a169d778},{1953,0xf46740c5a5daa},
{1954,0xbf562e36f09d},{1954,0xcdf97e4caf19},{1954,0x135b0901c33c4},{1954,0x1a0fc668aac6f},{1954,0x276733ea4a33c},{1954,0x2c3df3a9c9e99},{1954,0x2f1477d0d9e14},{1954,0x3069d18a6b9fc},{1954,0x5309bedf17009},{1954,0x59a6361ac9641},{1954,0x59b1c34abbc8e},{1954,0x5cdd04dd38ea0},{1954,0x6483f5b7e7f4a},{1954,0x70837544e8562},{1954,0x90529a37b7e22},{1954,0x95133c9b2c3a4},{1954,0xa717a99d002a7},{1954,0xb53750338775a},{1954,0xc34c70a777a4c},{1954,0xc43e560ac311f},{1954,0xc69eb3b946d1e},{1954,0xc8f098765c56d},{1954,0xcc4334015f74f},{1954,0xddea26f012a2b},{1954,0xec56abdbd100f},{1954,0xf46740c5a5daa},
{1955,0x1117e6e90271b},{1955,0x135b0901c33c4},{1955,0x20223f2b3a881},{1955,0x2c3df3a9c9e99},{1955,0x2f7f7b0c6ab32},{1955,0x3069d18a6b9fc},{1955,0x3590087945ab0},{1955,0x5cdd04dd38ea0},{1955,0x6483f5b7e7f4a},{1955,0x6a700b3d9ca5f},{1955,0x82196a0e90423},{1955,0x90529a37b7e22},{1955,0x95133c9b2c3a4},{1955,0x9fb0355d7400c},{1955,0xa6ae01288e156},{1955,0xa717a99d002a7},{1955,0xa8a222d16f625},{1955,0xc43e560ac311f},{1955,0xca41fc83b85c3},{1955,0xcc4334015f74f},{1955,0xcd093d3d8bcd3},{1955,0xce84b1cb8a9e8},{1955,0xd84a80f34a097},{1955,0xddea26f012a2b},{1955,0xe68e69748cfda},{1955,0xec56abdbd100f},{1955,0xed9b9b372adc3},{1955,0xf46740c5a5daa},
{1956,0x135b0901c33c4},{1956,0x145ba4c096c8a},{1956,0x173f76c63b792},{1956,0x20223f2b3a881},{1956,0x2c3df3a9c9e99},{1956,0x2f7f7b0c6ab32},{1956,0x386fedfb2ad5a},{1956,0x3b735ed2d12b4},{1956,0x4b56ff73b347c},{1956,0x4d1108b8b150c},{1956,0x5742d70d08a44},{1956,0x5cdd04dd38ea0},{1956,0x6cf46a912b5f6},{1956,0x803711d79af5e},{1956,0x82bf93d754263},{1956,0x8819d5512e2b7},{1956,0x90529a37b7e22},{1956,0x95133c9b2c3a4},{1956,0x9fb0355d7400c},{1956,0xa8a222d16f625},{1956,0xaf6ba601a1405},{1956,0xc367e99a5401f},{1956,0xcb4298428be89},{1956,0xcc4312d3e0281},{1956,0xcc4334015f74f},{1956,0xce446b7f068db},{1956,0xce84b1cb8a9e8},{1956,0xeb2b459af1f31},{1956,0xec56abdbd100f},{1956,0xf0577d3bf381f},{1956,0xf46740c5a5daa},{1956,0xf82f65db17aa1},
{1957,0x150e4647935c},{1957,0x954f38d7fc08},{1957,0xd24e7dfe08b6},{1957,0x135b0901c33c4},{1957,0x13db56e12d027},{1957,0x173f76c63b792},{1957,0x18fde4fb463e5},{1957,0x20223f2b3a881},{1957,0x330776d9fbc79},{1957,0x3bca798ebe98b},{1957,0x5de36662784c7},{1957,0x5ed06b922e011},{1957,0x71c51462c7450},{1957,0x7ffea023cd733},{1957,0x803711d79af5e},{1957,0x95133c9b2c3a4},{1957,0x9fb0355d7400c},{1957,0x9fdf201cac913},{1957,0xa8a222d16f625},{1957,0xaf6ba601a1405},{1957,0xba3840967f963},{1957,0xc367e99a5401f},{1957,0xc94160c4e4cfd},{1957,0xcb4298428be89},{1957,0xcbc2e621f5aec},{1957,0xce446b7f068db},{1957,0xce84b1cb8a9e8},{1957,0xd4c04bcf8b2ba},{1957,0xe04be483fb63b},{1957,0xeb2b459af1f31},{1957,0xec56abdbd100f},{1957,0xf0577d3bf381f},{1957,0xf46740c5a5daa},
{1958,0x7ff2072e802},{1958,0x954f38d7fc08},{1958,0xd24e7dfe08b6},{1958,0x135b0901c33c4},{1958,0x13db56e12d027},{1958,0x173f76c63b792},{1958,0x20223f2b3a881},{1958,0x226429302875e},{1958,0x330776d9fbc79},{1958,0x50a247b798fc1},{1958,0x562959b0b3d9b},{1958,0x5ae38558a7f6e},{1958,0x5de36662784c7},{1958,0x5ed06b922e011},{1958,0x6093b802d578b},{1958,0x6f8ef791dc758},{1958,0x71c51462c7450},{1958,0x7ffea023cd733},{1958,0x803711d79af5e},{1958,0x80c61452c3330},{1958,0x8118d8a6d100a},{1958,0x9fb0355d7400c},{1958,0xa48755feb51fc},{1958,0xa8a222d16f625},{1958,0xb8b8a6038ad6e},{1958,0xba3840967f963},{1958,0xc367e99a5401f},{1958,0xcbc2e621f5aec},{1958,0xce84b1cb8a9e8},{1958,0xd020192cc2617},{1958,0xd3477639284b9},{1958,0xd4c04bcf8b2ba},{1958,0xdcb5468eda74c},{1958,0xdfdb011c605e5},{1958,0xe48ab645824ae},{1958,0xf07441bc83f45},{1958,0xf46740c5a5daa},
{1959,0xf1e6764717e9},{1959,0x135b0901c33c4},{1959,0x15dc8e5ed41b3},{1959,0x173f76c63b792},{1959,0x20223f2b3a881},{1959,0x2112ef1f36a31},{1959,0x226429302875e},{1959,0x330776d9fbc79},{1959,0x50106fa783fda},{1959,0x5ae38558a7f6e},{1959,0x60d003e65ad05},{1959,0x6f8ef791dc758},{1959,0x71c51462c7450},{1959,0x7ffea023cd733},{1959,0x8118d8a6d100a},{1959,0x85282a24686b5},{1959,0x869bf335e2c3d},{1959,0x99deec5018292},{1959,0x9da8eed9e9122},{1959,0xa8a222d16f625},{1959,0xab27e55424c7f},{1959,0xab7fe8b6a2d59},{1959,0xba3840967f963},{1959,0xba96aa8c3486d},{1959,0xbd20e51d2d820},{1959,0xc367e99a5401f},{1959,0xc6bfdb67d3f0e},{1959,0xc838936befe79},{1959,0xcbc2e621f5aec},{1959,0xcc8b3246f9ab5},{1959,0xcec1e183b82e7},{1959,0xd020192cc2617},{1959,0xd3477639284b9},{1959,0xdcb5468eda74c},{1959,0xe20f722267793},{1959,0xe48ab645824ae},{1959,0xf46740c5a5daa},
{1960,0x135b0901c33c4},{1960,0x15dc8e5ed41b3},{1960,0x173f76c63b792},{1960,0x1a9f249c28c4e},{1960,0x1e7805824d721},{1960,0x20223f2b3a881},{1960,0x2112ef1f36a31},{1960,0x226429302875e},{1960,0x2927f9432707c},{1960,0x330776d9fbc79},{1960,0x41750049cfd8e},{1960,0x50106fa783fda},{1960,0x543ad68442bd0},{1960,0x60d003e65ad05},{1960,0x6f8ef791dc758},{1960,0x71c51462c7450},{1960,0x742d694b9537d},{1960,0x769cf38302d04},{1960,0x7de51685dee20},{1960,0x8118d8a6d100a},{1960,0x85282a24686b5},{1960,0x869bf335e2c3d},{1960,0x913636424a00e},{1960,0x9da8eed9e9122},{1960,0xa8a222d16f625},{1960,0xab7fe8b6a2d59},{1960,0xba3840967f963},{1960,0xba96aa8c3486d},{1960,0xbd20e51d2d820},{1960,0xc367e99a5401f},{1960,0xcbc2e621f5aec},{1960,0xcec1e183b82e7},{1960,0xd020192cc2617},{1960,0xd7093d0443f2d},{1960,0xe48ab645824ae},{1960,0xf9dcdd6a024b6},
{1961,0x15dc8e5ed41b3},{1961,0x173f76c63b792},{1961,0x20223f2b3a881},{1961,0x2112ef1f36a31},{1961,0x226429302875e},{1961,0x2a0d32fc99355},{1961,0x362ea9678194d},{1961,0x41750049cfd8e},{1961,0x44fbfe94c0ec1},{1961,0x4a27d43b67dff},{1961,0x4a9246a60d2d9},{1961,0x4ba48c4910cbf},{1961,0x543ad68442bd0},{1961,0x5881fbedd6273},{1961,0x60d003e65ad05},{1961,0x6f8ef791dc758},{1961,0x71c51462c7450},{1961,0x769cf38302d04},{1961,0x7b923a7fd9d0c},{1961,0x7de51685dee20},{1961,0x869bf335e2c3d},{1961,0x913636424a00e},{1961,0x9da8eed9e9122},{1961,0xab7fe8b6a2d59},{1961,0xaed2981d135b5},{1961,0xb19c66aed1f49},{1961,0xb4b5ea7def607},{1961,0xb8b8a6038ad6e},{1961,0xba3840967f963},{1961,0xba96aa8c3486d},{1961,0xbc2eeadfea298},{1961,0xc871051fbd6a4},{1961,0xcbc2e621f5aec},{1961,0xce3196005144c},{1961,0xcec1e183b82e7},{1961,0xd020192cc2617},{1961,0xd7093d0443f2d},{1961,0xd86ab4226aade},
{1962,0x683d22890792},{1962,0x7095d408119d},{1962,0xb1f74a323dc2},{1962,0x173f76c63b792},{1962,0x1818ab41d410d},{1962,0x20223f2b3a881},{1962,0x2112ef1f36a31},{1962,0x2590110de7ec3},{1962,0x2a6804a5c98a9},{1962,0x35bd26a53f1b1},{1962,0x362ea9678194d},{1962,0x3a038fe2861f8},{1962,0x44fbfe94c0ec1},{1962,0x4a9246a60d2d9},{1962,0x543ad68442bd0},{1962,0x5e654e4eb22c5},{1962,0x6f8ef791dc758},{1962,0x72b88663465ef},{1962,0x7b923a7fd9d0c},{1962,0x82ee9fe900be4},{1962,0x869bf335e2c3d},{1962,0x8db3573947ab9},{1962,0x913636424a00e},{1962,0x9ab745a97b0f9},{1962,0x9da8eed9e9122},{1962,0xaed2981d135b5},{1962,0xb19c66aed1f49},{1962,0xb619889d833db},{1962,0xba96aa8c3486d},{1962,0xbc2eeadfea298},{1962,0xc871051fbd6a4},{1962,0xcc473e054cae3},{1962,0xcec1e183b82e7},{1962,0xd7093d0443f2d},{1962,0xe779fddf21621},{1962,0xec1d1b5c339f1},{1962,0xefcfbac3fc31c},{1962,0xefd6c7f5becfa},{1962,0xf23e287c1d3f7},{1962,0xff3fe1eb748a5},
{1963,0x7095d408119d},{1963,0xb1f74a323dc2},{1963,0x173f76c63b792},{1963,0x1818ab41d410d},{1963,0x1a47774f01606},{1963,0x1bb6de1247c72},{1963,0x20223f2b3a881},{1963,0x235180168f47a},{1963,0x2590110de7ec3},{1963,0x2a6804a5c98a9},{1963,0x2add36fa66f35},{1963,0x2e8a54eb4a7e7},{1963,0x35bd26a53f1b1},{1963,0x3a038fe2861f8},{1963,0x537ef133b4695},{1963,0x543ad68442bd0},{1963,0x5802b08f67af5},{1963,0x7280a0c24a781},{1963,0x7b923a7fd9d0c},{1963,0x82ee9fe900be4},{1963,0x861fad43b7139},{1963,0x869bf335e2c3d},{1963,0x891d7892f3a2c},{1963,0x893033d3abe3c},{1963,0x9ab745a97b0f9},{1963,0x9da8eed9e9122},{1963,0xa42500e2be193},{1963,0xa4c4eee347357},{1963,0xaed2981d135b5},{1963,0xafb3e6214da2d},{1963,0xb619889d833db},{1963,0xb8581994dbe24},{1963,0xba96aa8c3486d},{1963,0xc2edea90aba71},{1963,0xcc473e054cae3},{1963,0xd7093d0443f2d},{1963,0xe779fddf21621},{1963,0xec1d1b5c339f1},{1963,0xed0e9353f686d},{1963,0xefcfbac3fc31c},{1963,0xefd6c7f5becfa},{1963,0xf6bab97a25b66},
{1964,0x17cfd8baa663},{1964,0xb1f74a323dc2},{1964,0x137367c236c65},{1964,0x173f76c63b792},{1964,0x1818ab41d410d},{1964,0x1de069d4752fe},{1964,0x20223f2b3a881},{1964,0x202249824ed2e},{1964,0x221356f3e9491},{1964,0x235180168f47a},{1964,0x2add36fa66f35},{1964,0x2e8a54eb4a7e7},{1964,0x35bd26a53f1b1},{1964,0x44fbfe94c0ec1},{1964,0x5320f63778cdd},{1964,0x543ad68442bd0},{1964,0x5802b08f67af5},{1964,0x585041b2c477e},{1964,0x7741ad8fd13df},{1964,0x7b923a7fd9d0c},{1964,0x80ed170ea4c94},{1964,0x861fad43b7139},{1964,0x869bf335e2c3d},{1964,0x891d7892f3a2c},{1964,0x90a99c6faee9b},{1964,0x9ab745a97b0f9},{1964,0x9d2d1ba352297},{1964,0x9da8eed9e9122},{1964,0xa2af8f59cb06a},{1964,0xa4c4eee347357},{1964,0xa9cbc3802d486},{1964,0xaed2981d135b5},{1964,0xaf5dd5b779500},{1964,0xafb3e6214da2d},{1964,0xb8e04156df813},{1964,0xba96aa8c3486d},{1964,0xc2edea90aba71},{1964,0xcc473e054cae3},{1964,0xe244b5deeddd7},{1964,0xe779fddf21621},{1964,0xeb248f77dc3e9},{1964,0xed0e9353f686d},{1964,0xefd6c7f5becfa},{1964,0xfc34ec3c15b30},
{1965,0x6a2e3a51b653},{1965,0xb065b4fe2fac},{1965,0xc90852a289af},{1965,0xcdfd66d18da0},{1965,0x173f76c63b792},{1965,0x1de069d4752fe},{1965,0x20223f2b3a881},{1965,0x202249824ed2e},{1965,0x221356f3e9491},{1965,0x235180168f47a},{1965,0x28edea80ece30},{1965,0x2add36fa66f35},{1965,0x39a19ab159aaf},{1965,0x44fbfe94c0ec1},{1965,0x460645d8e452b},{1965,0x49d04683dbb3c},{1965,0x5320f63778cdd},{1965,0x5457a514e6067},{1965,0x585041b2c477e},{1965,0x7741ad8fd13df},{1965,0x7b923a7fd9d0c},{1965,0x7d231663ad683},{1965,0x80ed170ea4c94},{1965,0x869bf335e2c3d},{1965,0x86db98e519ffc},{1965,0x8bf5e5272ebd1},{1965,0x8e9b9242303e9},{1965,0x95efe196bb753},{1965,0x9ab745a97b0f9},{1965,0x9da8eed9e9122},{1965,0x9fbe1a4661228},{1965,0xa4c4eee347357},{1965,0xa9cbc3802d486},{1965,0xaed2981d135b5},{1965,0xaf5dd5b779500},{1965,0xb3d96cb9f96e4},{1965,0xb4fa4021d6eb7},{1965,0xb8e04156df813},{1965,0xba96aa8c3486d},{1965,0xbf9b889b99024},{1965,0xc8fc4e001dc02},{1965,0xcc473e054cae3},{1965,0xe779fddf21621},{1965,0xeb248f77dc3e9},{1965,0xefd6c7f5becfa},{1965,0xfb6fbc2bfbb00},
{1966,0x6a2e3a51b653},{1966,0xcdfd66d18da0},{1966,0x136291682af6a},{1966,0x173f76c63b792},{1966,0x20223f2b3a881},{1966,0x235180168f47a},{1966,0x28edea80ece30},{1966,0x2add36fa66f35},{1966,0x2ce1ecee4a198},{1966,0x39a19ab159aaf},{1966,0x49d04683dbb3c},{1966,0x5320f63778cdd},{1966,0x5457a514e6067},{1966,0x585041b2c477e},{1966,0x5b091060fafea},{1966,0x5b698e10cad83},{1966,0x6c25e01c33198},{1966,0x6d79cc2564652},{1966,0x701de2632c9ca},{1966,0x7d231663ad683},{1966,0x869bf335e2c3d},{1966,0x8bf5e5272ebd1},{1966,0x95efe196bb753},{1966,0x9fbe1a4661228},{1966,0xa4c4eee347357},{1966,0xa9cbc3802d486},{1966,0xaed2981d135b5},{1966,0xaf5dd5b779500},{1966,0xb4fa4021d6eb7},{1966,0xb8e04156df813},{1966,0xbb0ac810a8d05},{1966,0xbd0a982fcfa1f},{1966,0xbf9b889b99024},{1966,0xc8fc4e001dc02},{1966,0xcb6be9cb4d591},{1966,0xd0d6b2cc7bebc},{1966,0xd20268675ddfe},{1966,0xd29dbfd6147c3},{1966,0xe3c8b62350d11},{1966,0xe779fddf21621},{1966,0xeb248f77dc3e9},{1966,0xf1882fb82209e},{1966,0xfb8d1dbdbdfac},{1966,0xfdcea0277abd5},
{1967,0x12970b6f3500e},{1967,0x136291682af6a},{1967,0x20223f2b3a881},{1967,0x235180168f47a},{1967,0x24aa9e3e5a32b},{1967,0x28edea80ece30},{1967,0x2add36fa66f35},{1967,0x2ce1ecee4a198},{1967,0x320bdee96e8a1},{1967,0x5320f63778cdd},{1967,0x5457a514e6067},{1967,0x585041b2c477e},{1967,0x6c25e01c33198},{1967,0x869bf335e2c3d},{1967,0x8bf5e5272ebd1},{1967,0x92df5b06c6a50},{1967,0x935e455433d03},{1967,0x94e77dfe1a91e},{1967,0x9fbe1a4661228},{1967,0xa4c4eee347357},{1967,0xa9cbc3802d486},{1967,0xaf5dd5b779500},{1967,0xb4fa4021d6eb7},{1967,0xb8e04156df813},{1967,0xbd0a982fcfa1f},{1967,0xbf9b889b99024},{1967,0xcba89525b1ce2},{1967,0xd0d6b2cc7bebc},{1967,0xd20268675ddfe},{1967,0xdc32a559d7a21},{1967,0xe3c8b62350d11},{1967,0xe779fddf21621},{1967,0xf295cb52bf868},{1967,0xf3412c1003477},{1967,0xfdb198c65daaf},
{1968,0x751efb349c7c},{1968,0x12970b6f3500e},{1968,0x136291682af6a},{1968,0x1ffe2b877138b},{1968,0x20223f2b3a881},{1968,0x20b2c16dc53ba},{1968,0x28edea80ece30},{1968,0x320bdee96e8a1},{1968,0x3c348dbe122a7},{1968,0x44fbfe94c0ec1},{1968,0x4a89e54e8ffe4},{1968,0x5017cc085f108},{1968,0x5320f63778cdd},{1968,0x5457a514e6067},{1968,0x553058f617a39},{1968,0x585041b2c477e},{1968,0x6c25e01c33198},{1968,0x88b11ea25ad43},{1968,0x89adf07e6a0b8},{1968,0x8bf5e5272ebd1},{1968,0x8dc1dae9d634c},{1968,0x9fbe1a4661228},{1968,0xa9cbc3802d486},{1968,0xaf5dd5b779500},{1968,0xb8e04156df813},{1968,0xb9c3211323793},{1968,0xbd0a982fcfa1f},{1968,0xbe2b8806bc737},{1968,0xbf9b889b99024},{1968,0xd20268675ddfe},{1968,0xe779fddf21621},{1968,0xf13ff3c266d58},{1968,0xf295cb52bf868},{1968,0xfdb198c65daaf},
{1969,0x7ec5d2b77a4f},{1969,0x12970b6f3500e},{1969,0x136291682af6a},{1969,0x1ffe2b877138b},{1969,0x20223f2b3a881},{1969,0x20b2c16dc53ba},{1969,0x320bdee96e8a1},{1969,0x39bbe7e7be70a},{1969,0x3a2ae84e2b9f9},{1969,0x413b625af83d6},{1969,0x44fbfe94c0ec1},{1969,0x4a89e54e8ffe4},{1969,0x5017cc085f108},{1969,0x5457a514e6067},{1969,0x547bc30fc3a0a},{1969,0x553058f617a39},{1969,0x585041b2c477e},{1969,0x5b57e2b5618be},{1969,0x6c25e01c33198},{1969,0x6cf2b01f2f00a},{1969,0x6e8461dba06d5},{1969,0x7cf3dd8304a72},{1969,0x835a49e91d06e},{1969,0x88b11ea25ad43},{1969,0x89adf07e6a0b8},{1969,0x8bf5e5272ebd1},{1969,0x9ee4b175d5763},{1969,0x9fbe1a4661228},{1969,0xad03735013e7c},{1969,0xbe2b8806bc737},{1969,0xd20268675ddfe},{1969,0xd9cb82ab95ecc},{1969,0xe87eaa026d23b},{1969,0xed07e498f0745},{1969,0xf295cb52bf868},
{1970,0x19dd92c8148},{1970,0xef71439fb800},{1970,0x12970b6f3500e},{1970,0x136291682af6a},{1970,0x1ffe2b877138b},{1970,0x20b2c16dc53ba},{1970,0x2d1489eace6c2},{1970,0x2f6d204bf0567},{1970,0x320bdee96e8a1},{1970,0x3a2ae84e2b9f9},{1970,0x413b625af83d6},{1970,0x474146b188d30},{1970,0x4a89e54e8ffe4},{1970,0x4e227df6cf863},{1970,0x52f0e401f8c51},{1970,0x5457a514e6067},{1970,0x585041b2c477e},{1970,0x5b57e2b5618be},{1970,0x6033025c1f6f3},{1970,0x616e03784339e},{1970,0x63bee168ca52b},{1970,0x6878482fa2002},{1970,0x6c25e01c33198},{1970,0x6cf2b01f2f00a},{1970,0x6dd545cdf0bf6},{1970,0x6e8461dba06d5},{1970,0x707cbe50acaff},{1970,0x89adf07e6a0b8},{1970,0x8bf5e5272ebd1},{1970,0x9e8fd850a7c26},{1970,0xa2dddb69153b1},{1970,0xad03735013e7c},{1970,0xba3a4794cdf06},{1970,0xd20268675ddfe},{1970,0xd9cb82ab95ecc},{1970,0xe87eaa026d23b},{1970,0xed07e498f0745},{1970,0xf295cb52bf868},{1970,0xf9d3e44408605},
{1971,0x12970b6f3500e},{1971,0x1ffe2b877138b},{1971,0x2086ebcd841c3},{1971,0x2f6d204bf0567},{1971,0x42cb3d9798306},{1971,0x474146b188d30},{1971,0x4a89e54e8ffe4},{1971,0x5457a514e6067},{1971,0x585041b2c477e},{1971,0x5db182b98f89c},{1971,0x616e03784339e},{1971,0x6312c3c05a9ba},{1971,0x6668a9820178a},{1971,0x6cf2b01f2f00a},{1971,0x707cbe50acaff},{1971,0x748cdecf9be05},{1971,0x89adf07e6a0b8},{1971,0x8bf5e5272ebd1},{1971,0x8de624233a8bc},{1971,0x93740add099df},{1971,0x9901f196d8b03},{1971,0x9e8fd850a7c26},{1971,0xa2dddb69153b1},{1971,0xa35f19656276b},{1971,0xa41dbf0a76d4a},{1971,0xa9aba5c445e6d},{1971,0xad03735013e7c},{1971,0xae64521f7595e},{1971,0xaf398c7e14f91},{1971,0xba3a4794cdf06},{1971,0xc3efdbc97a8b2},{1971,0xc892d1d1b3a47},{1971,0xd9cb82ab95ecc},{1971,0xe44db359e73c4},{1971,0xe87eaa026d23b},{1971,0xef22320f6accb},{1971,0xf9d3e44408605},
{1972,0x50d5c1d04584},{1972,0x10292990a27cb},{1972,0x12970b6f3500e},{1972,0x1b44f70440a12},{1972,0x1d09a0d7ded4c},{1972,0x1ffe2b877138b},{1972,0x2660c477dec59},{1972,0x2cf06beff0d1f},{1972,0x3588688e0a0d4},{1972,0x368646d8fb8a9},{1972,0x392e16721c684},{1972,0x42cb3d9798306},{1972,0x474146b188d30},{1972,0x4a89e54e8ffe4},{1972,0x5457a514e6067},{1972,0x585041b2c477e},{1972,0x5db182b98f89c},{1972,0x5f8b620f15ef5},{1972,0x616e03784339e},{1972,0x707cbe50acaff},{1972,0x748cdecf9be05},{1972,0x7897c7db86e32},{1972,0x898e5b9021d16},{1972,0x89adf07e6a0b8},{1972,0x8bf5e5272ebd1},{1972,0x95eb9b0095a1d},{1972,0x9901f196d8b03},{1972,0x9e8fd850a7c26},{1972,0xa2dddb69153b1},{1972,0xa41dbf0a76d4a},{1972,0xba3a4794cdf06},{1972,0xc3efdbc97a8b2},{1972,0xd9cb82ab95ecc},{1972,0xe87eaa026d23b},{1972,0xee2781a324896},{1972,0xf9d3e44408605},{1972,0xfb3de00681bcd},
{1973,0x50d5c1d04584},{1973,0x10292990a27cb},{1973,0x1b44f70440a12},{1973,0x1d09a0d7ded4c},{1973,0x2660c477dec59},{1973,0x30ed44ed8b49f},{1973,0x317c91eb7cea0},{1973,0x3588688e0a0d4},{1973,0x368646d8fb8a9},{1973,0x4a89e54e8ffe4},{1973,0x5b00e2362a00d},{1973,0x5db182b98f89c},{1973,0x5f8b620f15ef5},{1973,0x616e03784339e},{1973,0x6907952d93a03},{1973,0x707cbe50acaff},{1973,0x748cdecf9be05},{1973,0x8356b7ccf0032},{1973,0x982d158e81f57},{1973,0x9e8fd850a7c26},{1973,0xa092986faa566},{1973,0xba3a4794cdf06},{1973,0xc3efdbc97a8b2},{1973,0xd81d9bb1c10c9},{1973,0xe111233fc755f},{1973,0xe87eaa026d23b},{1973,0xfa4f96561af5f},
{1974,0xe4879c182b4},{1974,0x3cba409a2bbc},{1974,0xcfeb353a97da},{1974,0x21afe91769984},{1974,0x2412e726d07f2},{1974,0x30ed44ed8b49f},{1974,0x317c91eb7cea0},{1974,0x3588688e0a0d4},{1974,0x368646d8fb8a9},{1974,0x517441fd4e5ab},{1974,0x5db182b98f89c},{1974,0x616e03784339e},{1974,0x6759ae33bec00},{1974,0x6907952d93a03},{1974,0x707cbe50acaff},{1974,0x7786049f9e5a5},{1974,0x8356b7ccf0032},{1974,0x89dfbddf4353d},{1974,0x937e0cfd7e3c8},{1974,0x9e8fd850a7c26},{1974,0xa092986faa566},{1974,0xb1eddd8490dd2},{1974,0xc3efdbc97a8b2},{1974,0xc6e2450943fb1},{1974,0xcaf922186c358},{1974,0xd04c9cd50f13e},{1974,0xd81d9bb1c10c9},{1974,0xe111233fc755f},{1974,0xe4fd8682766e0},{1974,0xe87eaa026d23b},{1974,0xf15fad2c092eb},{1974,0xf6ed93e5d840e},{1974,0xfc7b7a9fa7532},
{1975,0xe4879c182b4},{1975,0x3cba409a2bbc},{1975,0x9598ac371ce0},{1975,0x1b26e30516479},{1975,0x232fdf8faf276},{1975,0x2412e726d07f2},{1975,0x317c91eb7cea0},{1975,0x3588688e0a0d4},{1975,0x3f17cf72ca462},{1975,0x48858128022cf},{1975,0x4d4e0cf52fd11},{1975,0x4d89ba0b81152},{1975,0x503e602893dd1},{1975,0x5db182b98f89c},{1975,0x616e03784339e},{1975,0x6759ae33bec00},{1975,0x6907952d93a03},{1975,0x82ea82b18c909},{1975,0x8356b7ccf0032},{1975,0x89dfbddf4353d},{1975,0x937e0cfd7e3c8},{1975,0x9cf975ffddbf3},{1975,0x9e8fd850a7c26},{1975,0xa092986faa566},{1975,0xb1eddd8490dd2},{1975,0xb42a1f27b3389},{1975,0xd0042889eac59},{1975,0xd04c9cd50f13e},{1975,0xd6ff01b5ddcc7},{1975,0xd81d9bb1c10c9},{1975,0xda98030b87895},{1975,0xe4fd8682766e0},{1975,0xebe718f2250e2},{1975,0xebf1f2742a45b},{1975,0xf39b76d3d397a},{1975,0xfc7b7a9fa7532},
{1976,0x3cba409a2bbc},{1976,0x5ef0dfabef63},{1976,0xed75b7c48cb9},{1976,0x1083f0eb25bc1},{1976,0x171d50c54d9f1},{1976,0x317c91eb7cea0},{1976,0x48858128022cf},{1976,0x4d4e0cf52fd11},{1976,0x503e602893dd1},{1976,0x5042e97586c00},{1976,0x528350722ccdb},{1976,0x5c811fbc576e7},{1976,0x5db182b98f89c},{1976,0x616e03784339e},{1976,0x6907952d93a03},{1976,0x770e293d95b5c},{1976,0x7736dbfe960cf},{1976,0x82ea82b18c909},{1976,0x8878696b5ba2c},{1976,0x891d3464fa844},{1976,0x89dfbddf4353d},{1976,0x9873fb795732f},{1976,0x9cf975ffddbf3},{1976,0xa092986faa566},{1976,0xb51de367f36c3},{1976,0xb961f253100b9},{1976,0xca1707a1bef70},{1976,0xd0042889eac59},{1976,0xd6ff01b5ddcc7},{1976,0xd7eb7a5dcfcca},{1976,0xd81d9bb1c10c9},{1976,0xda98030b87895},{1976,0xe4fd8682766e0},{1976,0xebe718f2250e2},{1976,0xeeb7f98e9af22},
{1977,0x3cba409a2bbc},{1977,0x768d5bb76a95},{1977,0x171d50c54d9f1},{1977,0x1dce9e88e4158},{1977,0x2ee8fef02ac69},{1977,0x3489e293aceb7},{1977,0x40942000b01d1},{1977,0x4500de008957c},{1977,0x47f0b82010d48},{1977,0x4d4e0cf52fd11},{1977,0x503e602893dd1},{1977,0x528350722ccdb},{1977,0x56b399e678470},{1977,0x58d87676e4fcf},{1977,0x5db182b98f89c},{1977,0x616e03784339e},{1977,0x6e318728b810c},{1977,0x770e293d95b5c},{1977,0x7d64a6f83988a},{1977,0x82ea82b18c909},{1977,0x8a1828ff39e61},{1977,0xa092986faa566},{1977,0xa415b409faca5},{1977,0xb554d008b4a6b},{1977,0xb961f253100b9},{1977,0xc2bc100125717},{1977,0xc540e56269041},{1977,0xcac6c11bbc0bf},{1977,0xd0042889eac59},{1977,0xd7eb7a5dcfcca},{1977,0xdffce19615a2a},{1977,0xe6b37cbfb4c23},{1977,0xebe718f2250e2},{1977,0xf177ce2d7d4da},
{1978,0x3cba409a2bbc},{1978,0x171d50c54d9f1},{1978,0x1dce9e88e4158},{1978,0x20182c16f6b71},{1978,0x2ee8fef02ac69},{1978,0x3578528d11f8a},{1978,0x368242716c093},{1978,0x3b063946e10ad},{1978,0x3e1b85f2ad4bd},{1978,0x40942000b01d1},{1978,0x4500de008957c},{1978,0x462206ba7f2f4},{1978,0x4bafed744e418},{1978,0x4db8c9ad64acb},{1978,0x503e602893dd1},{1978,0x528350722ccdb},{1978,0x58d87676e4fcf},{1978,0x5db182b98f89c},{1978,0x616e03784339e},{1978,0x64558efdf233d},{1978,0x667eef06820f3},{1978,0x770e293d95b5c},{1978,0x82ea82b18c909},{1978,0x8a1828ff39e61},{1978,0x9388cf7f8bd2a},{1978,0x96771f5143a14},{1978,0xa092986faa566},{1978,0xa415b409faca5},{1978,0xc2bc100125717},{1978,0xc540e56269041},{1978,0xc74a86ac06d6b},{1978,0xcd398ac96bb0c},{1978,0xd7eb7a5dcfcca},{1978,0xda6aee305a74d},{1978,0xdb701d8548a1d},{1978,0xded93f3ac9475},{1978,0xdffce19615a2a},{1978,0xebe718f2250e2},{1978,0xeff59aa2407fb},{1978,0xf85d903cddcba},{1978,0xfdea80911d776},
{1979,0x37b3604ca54a},{1979,0xb55f47dec66c},{1979,0x171d50c54d9f1},{1979,0x22f2b2ce50c18},{1979,0x2636942381617},{1979,0x368242716c093},{1979,0x3b063946e10ad},{1979,0x3e1b85f2ad4bd},{1979,0x40942000b01d1},{1979,0x4500de008957c},{1979,0x462206ba7f2f4},{1979,0x4d8468cd177d5},{1979,0x503e602893dd1},{1979,0x528350722ccdb},{1979,0x616e03784339e},{1979,0x6daa3bc5ba66d},{1979,0x6f33ebb8aa3ae},{1979,0x72913c88f7c10},{1979,0x770e293d95b5c},{1979,0x93801b5dc3ad7},{1979,0x9388cf7f8bd2a},{1979,0x96771f5143a14},{1979,0x9753c720d7755},{1979,0xa092986faa566},{1979,0xa415b409faca5},{1979,0xb4ab4cb631e73},{1979,0xca6907ec2c56b},{1979,0xd2ec92b8ba7c4},{1979,0xda6aee305a74d},{1979,0xde64a4cc282aa},{1979,0xdf85728c186ce},{1979,0xdffce19615a2a},{1979,0xe0de3001082b9},{1979,0xe66c16bad73dd},{1979,0xeb30ea68894e3},{1979,0xee8dba44a03d1},{1979,0xeff59aa2407fb},
{1980,0x37bb6f900ebe},{1980,0xb55f47dec66c},{1980,0xe8f819315fa2},{1980,0x22f2b2ce50c18},{1980,0x35224e7c58950},{1980,0x368242716c093},{1980,0x3a4ee4320caa8},{1980,0x3b063946e10ad},{1980,0x3b3a7a260a9f4},{1980,0x3e1b85f2ad4bd},{1980,0x3e60845de7057},{1980,0x40942000b01d1},{1980,0x462206ba7f2f4},{1980,0x4d8468cd177d5},{1980,0x503e602893dd1},{1980,0x528350722ccdb},{1980,0x616e03784339e},{1980,0x6f33ebb8aa3ae},{1980,0x7647fdea9ba17},{1980,0x78161ecbde392},{1980,0x93801b5dc3ad7},{1980,0x9388cf7f8bd2a},{1980,0x96771f5143a14},{1980,0x9bcae7b3df3be},{1980,0xa415b409faca5},{1980,0xac6080601658c},{1980,0xaecfeb33fd734},{1980,0xcaa69519cbe2b},{1980,0xd2ec92b8ba7c4},{1980,0xda6aee305a74d},{1980,0xdaec20785389e},{1980,0xdf69d5d56fc53},{1980,0xdffce19615a2a},{1980,0xe66c16bad73dd},{1980,0xe8f6190c6a597},{1980,0xeb30ea68894e3},{1980,0xec77331e64ecf},{1980,0xee8dba44a03d1},{1980,0xeff59aa2407fb},
{1981,0x3b50a7957855},{1981,0xb55f47dec66c},{1981,0x110ef565a0a25},{1981,0x22f2b2ce50c18},{1981,0x2b1c5d2f8a254},{1981,0x368242716c093},{1981,0x3b063946e10ad},{1981,0x3b3a7a260a9f4},{1981,0x3e1b85f2ad4bd},{1981,0x42305b2349fdb},{1981,0x4d8468cd177d5},{1981,0x528350722ccdb},{1981,0x6a0a1daf39e54},{1981,0x82d667305676c},{1981,0x931b91d7b52c8},{1981,0x93801b5dc3ad7},{1981,0x9388cf7f8bd2a},{1981,0x96771f5143a14},{1981,0x9e9be8d161d1e},{1981,0x9fe9542235b24},{1981,0xaecfeb33fd734},{1981,0xbcf6190c4d75a},{1981,0xc1e57d1f9e312},{1981,0xd2ec92b8ba7c4},{1981,0xda6aee305a74d},{1981,0xe66c16bad73dd},{1981,0xeb30ea68894e3},{1981,0xee8dba44a03d1},
{1982,0x3b50a7957855},{1982,0x171e22522654e},{1982,0x22f2b2ce50c18},{1982,0x2afe816d0ad7d},{1982,0x2f49af195c0fd},{1982,0x3957d158d5936},{1982,0x3b063946e10ad},{1982,0x3b3a7a260a9f4},{1982,0x3e1b85f2ad4bd},{1982,0x4969e89af40f6},{1982,0x4d8468cd177d5},{1982,0x806bcaf9e95ea},{1982,0x8a8f9809371bd},{1982,0x931b91d7b52c8},{1982,0x93801b5dc3ad7},{1982,0x96771f5143a14},{1982,0x985010a0f46fa},{1982,0x9fe9542235b24},{1982,0xa83b1a3508918},{1982,0xaecfeb33fd734},{1982,0xbcf6190c4d75a},{1982,0xc283ffc61c87d},{1982,0xcbb547777a284},{1982,0xd2ec92b8ba7c4},{1982,0xd5d91486c7e57},{1982,0xd8d7b7390feee},{1982,0xe66c16bad73dd},{1982,0xe89aa3baf6dd4},{1982,0xee8dba44a03d1},{1982,0xf2849b4f3b937},{1982,0xfda48f892b32b},
{1983,0x3b50a7957855},{1983,0x781ac39f826a},{1983,0x171e22522654e},{1983,0x202c523f7e591},{1983,0x22f2b2ce50c18},{1983,0x38fd93f1f5342},{1983,0x3957d158d5936},{1983,0x3b063946e10ad},{1983,0x3b3a7a260a9f4},{1983,0x3e1b85f2ad4bd},{1983,0x4d8468cd177d5},{1983,0x5add0591c4136},{1983,0x7ec51c867ec95},{1983,0x8a0918af8d471},{1983,0x8a8f9809371bd},{1983,0x93801b5dc3ad7},{1983,0x96771f5143a14},{1983,0x985010a0f46fa},{1983,0x9cfdcdf5be352},{1983,0x9fe9542235b24},{1983,0xa83b1a3508918},{1983,0xaecfeb33fd734},{1983,0xaf71a58aae332},{1983,0xb94ff01e3ff43},{1983,0xbffe134869362},{1983,0xc283ffc61c87d},{1983,0xcbb547777a284},{1983,0xd2ec92b8ba7c4},{1983,0xe66c16bad73dd},{1983,0xe89aa3baf6dd4},{1983,0xf2849b4f3b937},{1983,0xf3966d49b1af2},
{1984,0x1f1988bc2eb9},{1984,0x3b50a7957855},{1984,0x6b0bb1fb384b},{1984,0xac82a5c9e8c7},{1984,0x202c523f7e591},{1984,0x38fd93f1f5342},{1984,0x3957d158d5936},{1984,0x3b063946e10ad},{1984,0x3b3a7a260a9f4},{1984,0x3e1b85f2ad4bd},{1984,0x42e2c71415e8d},{1984,0x4d8468cd177d5},{1984,0x4fe8de6d764b2},{1984,0x50a33fabd33ca},{1984,0x5e827d4bcbbcc},{1984,0x5ff84062077b5},{1984,0x67e778550c9a5},{1984,0x7ec51c867ec95},{1984,0x8682b8262b705},{1984,0x8759c27765ea8},{1984,0x8a0918af8d471},{1984,0x8a8f9809371bd},{1984,0x96771f5143a14},{1984,0x985010a0f46fa},{1984,0x9cfdcdf5be352},{1984,0xaf71a58aae332},{1984,0xbd429955bbcdc},{1984,0xc283ffc61c87d},{1984,0xc48ca51b085e9},{1984,0xcbb547777a284},{1984,0xda27f5993882c},{1984,0xe66c16bad73dd},{1984,0xedbd5a2dd2f67},
{1985,0x3b50a7957855},{1985,0x6b0bb1fb384b},{1985,0x27bb00ac6d347},{1985,0x38fd93f1f5342},{1985,0x3957d158d5936},{1985,0x3b063946e10ad},{1985,0x3e1b85f2ad4bd},{1985,0x485ce9e7a065e},{1985,0x4d8468cd177d5},{1985,0x4f5cae98176e0},{1985,0x5ce5aae6afea1},{1985,0x67e778550c9a5},{1985,0x7ec51c867ec95},{1985,0x7f35e8b700b78},{1985,0x8377e0cec263c},{1985,0x8682b8262b705},{1985,0x8759c27765ea8},{1985,0x8a0918af8d471},{1985,0x8fb4d5566638f},{1985,0x96771f5143a14},{1985,0x985010a0f46fa},{1985,0x9cfdcdf5be352},{1985,0xa0a48e264da89},{1985,0xc283ffc61c87d},{1985,0xc47bf0669afb0},{1985,0xcbb547777a284},{1985,0xd57c5deaefce3},{1985,0xda035b8974eef},{1985,0xe1502af89fa7c},{1985,0xe4637165eb671},{1985,0xf3b66b9795bab},
{1986,0x3b50a7957855},{1986,0x1926c7a7122b9},{1986,0x27bb00ac6d347},{1986,0x38fd93f1f5342},{1986,0x3957d158d5936},{1986,0x3ce9b5aa53249},{1986,0x3dcf11e096c20},{1986,0x48e772e7db7dd},{1986,0x4d8468cd177d5},{1986,0x4ed4e9e79b715},{1986,0x5ce5aae6afea1},{1986,0x6dd563b69759b},{1986,0x6edc3301663a2},{1986,0x7ec51c867ec95},{1986,0x873cf8ee72812},{1986,0x8a0918af8d471},{1986,0x8c5dedcd6ee72},{1986,0x8fb4d5566638f},{1986,0x96771f5143a14},{1986,0x985010a0f46fa},{1986,0x9a3e7687bb0ef},{1986,0xa0a48e264da89},{1986,0xa79694231e460},{1986,0xad232a9810336},{1986,0xb19446f635183},{1986,0xb40e9b6fea32a},{1986,0xc283ffc61c87d},{1986,0xc8189bef0a91a},{1986,0xcbb547777a284},{1986,0xcfb8da3eea8e8},{1986,0xd57c5deaefce3},{1986,0xda035b8974eef},{1986,0xe1a7a3c44e1ed},{1986,0xefd3facbd60a8},{1986,0xf3b66b9795bab},
{1987,0xbe1e55424c40},{1987,0x126b445b1796a},{1987,0x171bc6d1aebd0},{1987,0x1926c7a7122b9},{1987,0x1fe24af30cc08},{1987,0x38fd93f1f5342},{1987,0x3ce9b5aa53249},{1987,0x3dcf11e096c20},{1987,0x6dd563b69759b},{1987,0x764d401e8b118},{1987,0x77090ddc3378d},{1987,0x7ec51c867ec95},{1987,0x873cf8ee72812},{1987,0x8f8f9e6c9b34e},{1987,0x8fb4d5566638f},{1987,0x96771f5143a14},{1987,0x982cb1be59f0c},{1987,0x985010a0f46fa},{1987,0x989c84b30af97},{1987,0x9a3e7687bb0ef},{1987,0xa0a48e264da89},{1987,0xa4c78e0cad5c9},{1987,0xad232a9810336},{1987,0xb317fcc81717e},{1987,0xb9a5edcd4c372},{1987,0xc283ffc61c87d},{1987,0xc8189bef0a91a},{1987,0xc9e6f1b3425cf},{1987,0xcbb547777a284},{1987,0xd380317561fc3},{1987,0xd57c5deaefce3},{1987,0xddc4a121a8196},{1987,0xe1a7a3c44e1ed},{1987,0xea5d113f0f6c5},{1987,0xf369f7857f30e},{1987,0xf3b66b9795bab},
{1988,0xbafc10f1d01b},{1988,0xbe1e55424c40},{1988,0x1926c7a7122b9},{1988,0x1ae7c67d05324},{1988,0x2d59518b01ea6},{1988,0x30f792d6cd9c1},{1988,0x3d5f0c2ac57f1},{1988,0x3dcf11e096c20},{1988,0x3fe63e5f3486b},{1988,0x437e15aed4c2a},{1988,0x485ce9e7a065e},{1988,0x4e180789befd4},{1988,0x4eaba646667d3},{1988,0x66af582698fb7},{1988,0x6dd563b69759b},{1988,0x716887249472a},{1988,0x7a892e5284ed7},{1988,0x7ec51c867ec95},{1988,0x83010aba78a54},{1988,0x873cf8ee72812},{1988,0x8b78e7226c5d1},{1988,0x8fb4d5566638f},{1988,0x93f0c38a6014e},{1988,0x982cb1be59f0c},{1988,0x985010a0f46fa},{1988,0x989c84b30af97},{1988,0x9a742461887f6},{1988,0x9b4c9955d5d1c},{1988,0xa40b4aa79c9c2},{1988,0xa4c78e0cad5c9},{1988,0xa88634b2d433e},{1988,0xae4a68115f334},{1988,0xb317fcc81717e},{1988,0xc283ffc61c87d},{1988,0xc2ad9aa2632fb},{1988,0xc33798e87dbdb},{1988,0xc8189bef0a91a},{1988,0xc9e6f1b3425cf},{1988,0xcbb547777a284},{1988,0xea5d113f0f6c5},{1988,0xecdb4dcddf1ee},{1988,0xf369f7857f30e},{1988,0xf3b66b9795bab},{1988,0xf6b2f44c771cd},
{1989,0xbafc10f1d01b},{1989,0xbe1e55424c40},{1989,0x1926c7a7122b9},{1989,0x1ae7c67d05324},{1989,0x30f792d6cd9c1},{1989,0x3dcf11e096c20},{1989,0x3fe63e5f3486b},{1989,0x485ce9e7a065e},{1989,0x4eaba646667d3},{1989,0x58a9bcb2b60e3},{1989,0x6b5c0552dc22a},{1989,0x6dd563b69759b},{1989,0x716887249472a},{1989,0x7d9d9910e7985},{1989,0x83010aba78a54},{1989,0x873cf8ee72812},{1989,0x8b78e7226c5d1},{1989,0x982cb1be59f0c},{1989,0x989c84b30af97},{1989,0x9e8ee74e074d7},{1989,0xa4c78e0cad5c9},{1989,0xa88634b2d433e},{1989,0xaac6cdf397311},{1989,0xad5858c23b3c5},{1989,0xae4a68115f334},{1989,0xb3ff937a958d2},{1989,0xc283ffc61c87d},{1989,0xc33798e87dbdb},{1989,0xcbb547777a284},{1989,0xecdb4dcddf1ee},{1989,0xf8dba7a0ed031},
{1990,0xbafc10f1d01b},{1990,0xbe1e55424c40},{1990,0x1926c7a7122b9},{1990,0x1ae7c67d05324},{1990,0x2240c80bda7bf},{1990,0x267cb63fd457d},{1990,0x30f792d6cd9c1},{1990,0x39ff3fabe494a},{1990,0x3d8ec93a336cf},{1990,0x4bc98c9720fd8},{1990,0x5a340d037c7bf},{1990,0x5b3b47815a196},{1990,0x5ce2b8861a6c4},{1990,0x6773acfbcd5fb},{1990,0x6b5c0552dc22a},{1990,0x6dd563b69759b},{1990,0x716887249472a},{1990,0x7d9d9910e7985},{1990,0x81d60af9e8492},{1990,0x83010aba78a54},{1990,0x873cf8ee72812},{1990,0x982cb1be59f0c},{1990,0xa2c3ef1a09471},{1990,0xa4c78e0cad5c9},{1990,0xa88634b2d433e},{1990,0xaac6cdf397311},{1990,0xc52fc2b9f840e},{1990,0xc5441bef0cbca},{1990,0xcbb547777a284},{1990,0xd1667af8d66d5},{1990,0xdca8bc1f38ce7},{1990,0xe7fd3b9d10aa7},{1990,0xecdb4dcddf1ee},{1990,0xef3b9e8843a78},{1990,0xf0dfa932364f6},{1990,0xf6d85c622bebd},
{1991,0xbafc10f1d01b},{1991,0x1926c7a7122b9},{1991,0x1ae7c67d05324},{1991,0x1d6b388947625},{1991,0x2240c80bda7bf},{1991,0x2b5ac870a2cc4},{1991,0x30f792d6cd9c1},{1991,0x33d71b49265f8},{1991,0x360b6f67d6efc},{1991,0x3991b7057530b},{1991,0x39ff3fabe494a},{1991,0x4bc98c9720fd8},{1991,0x54e1ffabcffc2},{1991,0x58af72e72469c},{1991,0x5a340d037c7bf},{1991,0x5b3b47815a196},{1991,0x66ffe1a28e251},{1991,0x67259fd5576f7},{1991,0x69ddc0f86b719},{1991,0x716887249472a},{1991,0x769908266235e},{1991,0x82da4391af5e7},{1991,0x83010aba78a54},{1991,0x95aa3132cfa5d},{1991,0x9a742461887f6},{1991,0xa2c3ef1a09471},{1991,0xa4c78e0cad5c9},{1991,0xa88634b2d433e},{1991,0xaac6cdf397311},{1991,0xb5017fd5f0b36},{1991,0xcbb547777a284},{1991,0xdaa74d044e7e3},{1991,0xe3c14d6916ce9},{1991,0xecdb4dcddf1ee},{1991,0xef3b9e8843a78},{1991,0xf6d85c622bebd},{1991,0xf8ecf46cf81a1},
{1992,0xbafc10f1d01b},{1992,0x1d6b388947625},{1992,0x2240c80bda7bf},{1992,0x2a59b1978d002},{1992,0x30f792d6cd9c1},{1992,0x360b6f67d6efc},{1992,0x3c0e957050f32},{1992,0x4fc2ca03c40da},{1992,0x52a0e96329909},{1992,0x58af72e72469c},{1992,0x5a340d037c7bf},{1992,0x66ffe1a28e251},{1992,0x67259fd5576f7},{1992,0x69ddc0f86b719},{1992,0x769908266235e},{1992,0x82da4391af5e7},{1992,0x83010aba78a54},{1992,0x83a0bf19619bb},{1992,0x8d130dcd6e5c6},{1992,0x9555a2f2258eb},{1992,0x9a742461887f6},{1992,0xa2c3ef1a09471},{1992,0xa88634b2d433e},{1992,0xb3612c11c7b9e},{1992,0xb63f4b712d3cd},{1992,0xb92976a9043a2},{1992,0xcbb547777a284},{1992,0xdbaa1d3ba71c9},{1992,0xe3c14d6916ce9},{1992,0xe769eb33d2174},{1992,0xf09ab6d09dac1},{1992,0xf548f2fdc85be},
{1993,0x37439186f5f},{1993,0xb75db627d646},{1993,0xf00b81cebe3e},{1993,0x2240c80bda7bf},{1993,0x22a0bc0a49193},{1993,0x2c24edcdb89d2},{1993,0x30f792d6cd9c1},{1993,0x360b6f67d6efc},{1993,0x3c0e957050f32},{1993,0x40ec689afa906},{1993,0x4d6aa9e79c86d},{1993,0x52a0e96329909},{1993,0x5a340d037c7bf},{1993,0x67259fd5576f7},{1993,0x69ddc0f86b719},{1993,0x70fa86bc9f2c4},{1993,0x722aebbc9b118},{1993,0x78174c80d2e6f},{1993,0x796848db43bab},{1993,0x83010aba78a54},{1993,0x83a0bf19619bb},{1993,0x8650d8093a5c5},{1993,0x9555a2f2258eb},{1993,0xa2c3ef1a09471},{1993,0xa56761ea0d140},{1993,0xa88634b2d433e},{1993,0xb3612c11c7b9e},{1993,0xb4397927352a7},{1993,0xbf37062ad831d},{1993,0xcbb547777a284},{1993,0xe3c14d6916ce9},{1993,0xe769eb33d2174},{1993,0xf548f2fdc85be},{1993,0xfd752a10ab1ce},
{1994,0x8896bcf54f9},{1994,0xf00b81cebe3e},{1994,0x19c64a1de71fb},{1994,0x2240c80bda7bf},{1994,0x22a0bc0a49193},{1994,0x3212a724d0e71},{1994,0x4d6aa9e79c86d},{1994,0x52a0e96329909},{1994,0x5a340d037c7bf},{1994,0x5ba4357003fc3},{1994,0x5bfb2f7e3753f},{1994,0x67259fd5576f7},{1994,0x69ddc0f86b719},{1994,0x70fa86bc9f2c4},{1994,0x78174c80d2e6f},{1994,0x7f06ca4506c45},{1994,0x80cce21b6ff76},{1994,0x83010aba78a54},{1994,0x8650d8093a5c5},{1994,0x86a2521d9e9d6},{1994,0x89c76c80c55a3},{1994,0x8d9cad64e1a7c},{1994,0x948a6391a1d1b},{1994,0xa5e90a6bcb6f2},{1994,0xb3612c11c7b9e},{1994,0xc4c81e88642c8},{1994,0xc83155be35429},{1994,0xcee793d84e47e},{1994,0xe3c14d6916ce9},{1994,0xe769eb33d2174},{1994,0xf548f2fdc85be},
{1995,0x5f3825051fbd},{1995,0x733a926fa143},{1995,0xf00b81cebe3e},{1995,0x13c6087187b59},{1995,0x2240c80bda7bf},{1995,0x22a0bc0a49193},{1995,0x2e34f3f4b322a},{1995,0x3d75d4236f928},{1995,0x3f311e5f35117},{1995,0x40aabc6c32a38},{1995,0x5266fe0d8aac4},{1995,0x52a0e96329909},{1995,0x5a340d037c7bf},{1995,0x5e56e0c2bac69},{1995,0x62c0fb3437b6e},{1995,0x67259fd5576f7},{1995,0x69ddc0f86b719},{1995,0x70fa86bc9f2c4},{1995,0x78174c80d2e6f},{1995,0x7f34124506a1a},{1995,0x83010aba78a54},{1995,0x8650d8093a5c5},{1995,0x89c76c80c55a3},{1995,0x9d9a52f41b445},{1995,0xb3612c11c7b9e},{1995,0xc0ef07caad4b5},{1995,0xc1cc5d0cf2cdf},{1995,0xc83155be35429},{1995,0xcd7091b33fa73},{1995,0xceb0166613c97},{1995,0xcee793d84e47e},{1995,0xdad644e988ad2},{1995,0xe218436b0b51e},{1995,0xe3c14d6916ce9},{1995,0xe769eb33d2174},{1995,0xf548f2fdc85be},
{1996,0x5f3825051fbd},{1996,0x1ba1418a326c0},{1996,0x2240c80bda7bf},{1996,0x2e34f3f4b322a},{1996,0x3d75d4236f928},{1996,0x3f311e5f35117},{1996,0x3f4df5c440369},{1996,0x40aabc6c32a38},{1996,0x52a0e96329909},{1996,0x62c0fb3437b6e},{1996,0x69ddc0f86b719},{1996,0x70fa86bc9f2c4},{1996,0x78174c80d2e6f},{1996,0x83010aba78a54},{1996,0x8650d8093a5c5},{1996,0xa9e0b4de3d01c},{1996,0xaeedc37882743},{1996,0xb3612c11c7b9e},{1996,0xc0ef07caad4b5},{1996,0xc1cc5d0cf2cdf},{1996,0xcd7091b33fa73},{1996,0xceb0166613c97},{1996,0xcee793d84e47e},{1996,0xe2523db9640d1},{1996,0xe3c14d6916ce9},{1996,0xe5305d18c9900},{1996,0xebb09b3469d6e},{1996,0xf07cc71919196},{1996,0xf548f2fdc85be},{1996,0xf54ce228674c2},
{1997,0x10912028c4a49},{1997,0x1ba1418a326c0},{1997,0x2240c80bda7bf},{1997,0x23c0d1140c7dd},{1997,0x2969a644fd889},{1997,0x3d75d4236f928},{1997,0x3f311e5f35117},{1997,0x3f4df5c440369},{1997,0x52a0e96329909},{1997,0x62c0fb3437b6e},{1997,0x6b8881e6aa7ba},{1997,0x6ef425fa9d15e},{1997,0x70fa86bc9f2c4},{1997,0x83010aba78a54},{1997,0x8650d8093a5c5},{1997,0x90d56b873f4c6},{1997,0xb3612c11c7b9e},{1997,0xb6f8ce2d89303},{1997,0xba277ae12dadf},{1997,0xcd7091b33fa73},{1997,0xcee793d84e47e},{1997,0xd9b7df9b33844},{1997,0xe3c14d6916ce9},{1997,0xe758ef84d844e},{1997,0xe80e7c782f12f},{1997,0xebb09b3469d6e},{1997,0xf07cc71919196},{1997,0xf13b69f9506ad},{1997,0xf548f2fdc85be},{1997,0xfee14ac726e0e},
{1998,0x1ba1418a326c0},{1998,0x2240c80bda7bf},{1998,0x2969a644fd889},{1998,0x2eb4944d9af17},{1998,0x3d75d4236f928},{1998,0x40aabc6c32a38},{1998,0x52a0e96329909},{1998,0x62c0fb3437b6e},{1998,0x674f43ced7f5e},{1998,0x67f2d9e78833b},{1998,0x68aa628744f8b},{1998,0x68c013f9b8f7f},{1998,0x6ef425fa9d15e},{1998,0x70fa86bc9f2c4},{1998,0x83010aba78a54},{1998,0x8650d8093a5c5},{1998,0x90d56b873f4c6},{1998,0xa6ed5fd007446},{1998,0xadbab87f56a39},{1998,0xb3612c11c7b9e},{1998,0xba277ae12dadf},{1998,0xca8e5e4233915},{1998,0xcb6142be37f59},{1998,0xcd7091b33fa73},{1998,0xe1001aa24bf54},{1998,0xe3c14d6916ce9},{1998,0xe6e46f4fba946},{1998,0xe80e7c782f12f},{1998,0xee16b126c1782},{1998,0xf07cc71919196},{1998,0xf2e2dd0b70baa},{1998,0xfae6ace717a13},{1998,0xfee14ac726e0e},
{1999,0x104a9d81132c6},{1999,0x132c1ce3e3226},{1999,0x1766af370ac73},{1999,0x189564deac4f1},{1999,0x1ba1418a326c0},{1999,0x2240c80bda7bf},{1999,0x3d75d4236f928},{1999,0x40aabc6c32a38},{1999,0x52a0e96329909},{1999,0x674f43ced7f5e},{1999,0x68aa628744f8b},{1999,0x68c013f9b8f7f},{1999,0x6ef425fa9d15e},{1999,0x70fa86bc9f2c4},{1999,0x83010aba78a54},{1999,0x85579c413c161},{1999,0x90d56b873f4c6},{1999,0xa6ed5fd007446},{1999,0xa85c6f7fba05d},{1999,0xadbab87f56a39},{1999,0xb3612c11c7b9e},{1999,0xb8eac314c5a0d},{1999,0xbc864866a113f},{1999,0xbcece56fb9761},{1999,0xc557569c8f097},{1999,0xcb6142be37f59},{1999,0xcd7091b33fa73},{1999,0xd1ab2406674c0},{1999,0xd5e5b6598ef0d},{1999,0xe1001aa24bf54},{1999,0xe3c14d6916ce9},{1999,0xe6e46f4fba946},{1999,0xef49bc1fed48c},{1999,0xefe3419c83311},{1999,0xf07cc71919196},{1999,0xf2e2dd0b70baa},{1999,0xfae6ace717a13},{1999,0xfee14ac726e0e},
{2000,0x132c1ce3e3226},{2000,0x1766af370ac73},{2000,0x1fee5ffe29edd},{2000,0x2240c80bda7bf},{2000,0x40aabc6c32a38},{2000,0x5b9bfea88d386},{2000,0x68c013f9b8f7f},{2000,0x70fa86bc9f2c4},{2000,0x7a05f57514fd7},{2000,0x888369037f7f4},{2000,0x8d6a8672a0c78},{2000,0x90d56b873f4c6},{2000,0x9a360f9d4f817},{2000,0x9bb11a6929fc5},{2000,0xa85c6f7fba05d},{2000,0xaaec4aa52bd52},{2000,0xbc864866a113f},{2000,0xc557569c8f097},{2000,0xd1ab2406674c0},{2000,0xe3c14d6916ce9},{2000,0xe6cfffa62d841},{2000,0xe6e46f4fba946},{2000,0xe7034e2ab9b52},{2000,0xece3a62d95a78},{2000,0xef49bc1fed48c},{2000,0xefe3419c83311},{2000,0xf07cc71919196},{2000,0xf2e2dd0b70baa},{2000,0xfae6ace717a13},
{2001,0x5e1a42f5e91},{2001,0x91f4f1295650},{2001,0x104a9d81132c6},{2001,0x132c1ce3e3226},{2001,0x1766af370ac73},{2001,0x1fee5ffe29edd},{2001,0x32fc01500e56a},{2001,0x35f34e14d0326},{2001,0x3da922a7fbc39},{2001,0x4a7dead393cf5},{2001,0x58ce5f6a2d245},{2001,0x5b9bfea88d386},{2001,0x60ab5f2ed03c6},{2001,0x6252c902be265},{2001,0x67bf8b62fc02a},{2001,0x68c013f9b8f7f},{2001,0x888369037f7f4},{2001,0x8d6a8672a0c78},{2001,0x90d56b873f4c6},{2001,0x986fec419cc29},{2001,0x9faea608d2037},{2001,0xa85c6f7fba05d},{2001,0xd1ab2406674c0},{2001,0xe3c14d6916ce9},{2001,0xe6e46f4fba946},{2001,0xece3a62d95a78},{2001,0xefe3419c83311},{2001,0xf2e2dd0b70baa},{2001,0xf50ac6690f1f8},{2001,0xf61f9f8bbc6d3},{2001,0xfae6ace717a13},
{2002,0x5e1a42f5e91},{2002,0x91f4f1295650},{2002,0x104a9d81132c6},{2002,0x132c1ce3e3226},{2002,0x1392b9ecfb848},{2002,0x1766af370ac73},{2002,0x1fee5ffe29edd},{2002,0x32fc01500e56a},{2002,0x381a87509bf5c},{2002,0x48c7a65eaeb56},{2002,0x4a7dead393cf5},{2002,0x4b17705029b7a},{2002,0x545d44e157f77},{2002,0x58ce5f6a2d245},{2002,0x603343e1578f1},{2002,0x726ba07525373},{2002,0x8d6a8672a0c78},{2002,0x90d56b873f4c6},{2002,0x986fec419cc29},{2002,0x9d3096380b803},{2002,0x9faea608d2037},{2002,0xa7616cc6dadbe},{2002,0xa85c6f7fba05d},{2002,0xb9ded91ef8fdb},{2002,0xc2f018f82735f},{2002,0xc8e85cfa7334c},{2002,0xd1ab2406674c0},{2002,0xdc8293a1e18da},{2002,0xe3c14d6916ce9},{2002,0xe602c593fcbfd},{2002,0xe6e46f4fba946},{2002,0xe7d90b9533386},{2002,0xefe3419c83311},{2002,0xf5e2787a5e443},{2002,0xf695a5b2f5519},{2002,0xfae6ace717a13},
{2003,0x5e1a42f5e91},{2003,0x5c4bebec51e3},{2003,0x91f4f1295650},{2003,0x104a9d81132c6},{2003,0x1392b9ecfb848},{2003,0x1766af370ac73},{2003,0x1fee5ffe29edd},{2003,0x2a5daf9226f04},{2003,0x32fc01500e56a},{2003,0x42189e03611af},{2003,0x48c7a65eaeb56},{2003,0x4b17705029b7a},{2003,0x5116a72e04cac},{2003,0x545d44e157f77},{2003,0x58ce5f6a2d245},{2003,0x603343e1578f1},{2003,0x6e7056f26bbb6},{2003,0x726ba07525373},{2003,0x87907c14eb6f4},{2003,0x8d6a8672a0c78},{2003,0x8e18d110db920},{2003,0x90d56b873f4c6},{2003,0x964479e3e2c1f},{2003,0xa7616cc6dadbe},{2003,0xa85c6f7fba05d},{2003,0xb282fe52b0867},{2003,0xb8376f4b0b13c},{2003,0xb9ded91ef8fdb},{2003,0xbaa1c903e9fff},{2003,0xbae9e7b6e0b00},{2003,0xbb8642f2e6e7a},{2003,0xc64a85dea3fe0},{2003,0xc8e85cfa7334c},{2003,0xd1ab2406674c0},{2003,0xe6e46f4fba946},{2003,0xed2b798e06101},{2003,0xefe3419c83311},{2003,0xf5e2787a5e443},{2003,0xf695a5b2f5519},{2003,0xfae6ace717a13},{2003,0xfc5b9a1e1c143},
{2004,0x5e1a42f5e91},{2004,0xa572e7842b3},{2004,0x91f4f1295650},{2004,0xc06110f47793},{2004,0x11b6602329203},{2004,0x1392b9ecfb848},{2004,0x1766af370ac73},{2004,0x2124952157f6e},{2004,0x241c8bae19bb5},{2004,0x2a5daf9226f04},{2004,0x32fc01500e56a},{2004,0x3f5d7a39bf73e},{2004,0x4b17705029b7a},{2004,0x4b9c1011b87b8},{2004,0x523412ba1d687},{2004,0x545d44e157f77},{2004,0x603343e1578f1},{2004,0x6f12b9834c2a6},{2004,0x77c814cecb57a},{2004,0x7e5cda3088fea},{2004,0x7f3286979ff9e},{2004,0x8370219a043ef},{2004,0x87907c14eb6f4},{2004,0x8d6a8672a0c78},{2004,0x90d56b873f4c6},{2004,0x9778f46de3259},{2004,0x9bfd8b3edfaf9},{2004,0xa7616cc6dadbe},{2004,0xaff25e2765821},{2004,0xb282fe52b0867},{2004,0xb8376f4b0b13c},{2004,0xb9ded91ef8fdb},{2004,0xc07c806eb0a57},{2004,0xc64a85dea3fe0},{2004,0xc8e85cfa7334c},{2004,0xd1ab2406674c0},{2004,0xecaead0c16d39},{2004,0xefe3419c83311},{2004,0xf148c633ca879},{2004,0xf50ac6690f1f8},{2004,0xf695a5b2f5519},{2004,0xfc5b9a1e1c143},
{2005,0xa572e7842b3},{2005,0xdefb99d14a0a},{2005,0x11b6602329203},{2005,0x1392b9ecfb848},{2005,0x155de4ea8e6cb},{2005,0x2124952157f6e},{2005,0x2a5daf9226f04},{2005,0x32fc01500e56a},{2005,0x361e02b8c0d74},{2005,0x398889ae54b13},{2005,0x3f5d7a39bf73e},{2005,0x4b9c1011b87b8},{2005,0x523412ba1d687},{2005,0x545d44e157f77},{2005,0x603343e1578f1},{2005,0x695d0f88f07b1},{2005,0x7e53f7518417f},{2005,0x7f3286979ff9e},{2005,0x8d6a8672a0c78},{2005,0x9af98ff65a62b},{2005,0x9bfd8b3edfaf9},{2005,0xa7616cc6dadbe},{2005,0xa7ad4d03bff06},{2005,0xb8376f4b0b13c},{2005,0xb9ded91ef8fdb},{2005,0xc07c806eb0a57},{2005,0xc64a85dea3fe0},{2005,0xc7b699a39c67c},{2005,0xc8f001dc9ef9e},{2005,0xd106a2b5fbc8d},{2005,0xd1ab2406674c0},{2005,0xd7c7d29c67d01},{2005,0xdb1d399e8a88f},{2005,0xdf0c37569f2dd},{2005,0xe431ce02c6433},{2005,0xefe3419c83311},{2005,0xf695a5b2f5519},{2005,0xfa5ff86837a14},{2005,0xfc5b9a1e1c143},
{2006,0xa572e7842b3},{2006,0x11b6602329203},{2006,0x1392b9ecfb848},{2006,0x19d60f9b1881b},{2006,0x1d16fe4aec6e3},{2006,0x2a5daf9226f04},{2006,0x2ba14bed0c671},{2006,0x361e02b8c0d74},{2006,0x3f5d7a39bf73e},{2006,0x4b223167ea85c},{2006,0x4b9c1011b87b8},{2006,0x4d4379e5a6657},{2006,0x523412ba1d687},{2006,0x545d44e157f77},{2006,0x587768683a65a},{2006,0x5a3a732f258e1},{2006,0x6010dde792980},{2006,0x8d6a8672a0c78},{2006,0x9af98ff65a62b},{2006,0x9bfd8b3edfaf9},{2006,0xa7616cc6dadbe},{2006,0xa7ad4d03bff06},{2006,0xaa90900b1e97a},{2006,0xad046d16c1bfc},{2006,0xb53998a2ff090},{2006,0xb8376f4b0b13c},{2006,0xb9ded91ef8fdb},{2006,0xc64a85dea3fe0},{2006,0xc7b699a39c67c},{2006,0xc922ad6894d18},{2006,0xca0c6caf06aa3},{2006,0xd106a2b5fbc8d},{2006,0xd1ab2406674c0},{2006,0xdf0c37569f2dd},{2006,0xead0ee84ca3fb},{2006,0xeba5c5e3e3a3b},{2006,0xebbc69de534e9},{2006,0xf40c01fe37b16},{2006,0xf41a465bbdf98},{2006,0xfa5ff86837a14},{2006,0xfc5b9a1e1c143},
{2007,0xede3899384cb},{2007,0x11b6602329203},{2007,0x13a6f6a121457},{2007,0x2a5daf9226f04},{2007,0x2ba14bed0c671},{2007,0x35f869a927572},{2007,0x3f5d7a39bf73e},{2007,0x453fd5d0d4fcd},{2007,0x4b223167ea85c},{2007,0x4b9c1011b87b8},{2007,0x4d4379e5a6657},{2007,0x55fa1511bcf43},{2007,0x7c5681dc2e830},{2007,0x8d6a8672a0c78},{2007,0x8f34d8c82f50d},{2007,0x9af98ff65a62b},{2007,0x9bfd8b3edfaf9},{2007,0xaa90900b1e97a},{2007,0xb9ded91ef8fdb},{2007,0xc3725e54b32a8},{2007,0xc7b699a39c67c},{2007,0xd06d1d3965e08},{2007,0xd1ab2406674c0},{2007,0xdf0c37569f2dd},{2007,0xead0ee84ca3fb},{2007,0xf1d3f28f9033c},{2007,0xf40c01fe37b16},{2007,0xfa5ff86837a14},
{2008,0xb61e57d7bb3c},{2008,0xede3899384cb},{2008,0x11005640aceb5},{2008,0x11b6602329203},{2008,0x13a6f6a121457},{2008,0x1516dda14a466},{2008,0x15fa9b72125d7},{2008,0x21aa3ab4bcbe3},{2008,0x220e1772428d7},{2008,0x2a5daf9226f04},{2008,0x2ba14bed0c671},{2008,0x3075384363d57},{2008,0x3f5d7a39bf73e},{2008,0x4b9c1011b87b8},{2008,0x4d4379e5a6657},{2008,0x604b9381dea22},{2008,0x7ed781a661df7},{2008,0x8f34d8c82f50d},{2008,0x983efd907c3c4},{2008,0x9bfd8b3edfaf9},{2008,0x9eecec4f00861},{2008,0xc3725e54b32a8},{2008,0xc7b699a39c67c},{2008,0xca8ec12d8d3b4},{2008,0xd505b0ed4da3c},{2008,0xd5ba1a027e2d8},{2008,0xdf0c37569f2dd},{2008,0xe36cd1be6eebc},{2008,0xe98ee16beaa21},{2008,0xefe435ee45800},{2008,0xf1d3f28f9033c},{2008,0xf40c01fe37b16},{2008,0xfa5ff86837a14},{2008,0xfc78014a0ada8},{2008,0xfd5f93d7252ad},
{2009,0xede3899384cb},{2009,0x115b5b31eb05c},{2009,0x126c6a05a5551},{2009,0x1516dda14a466},{2009,0x1fb52fee53af1},{2009,0x220e1772428d7},{2009,0x23a9e26d892e7},{2009,0x27e2be3ea8f3c},{2009,0x2a5daf9226f04},{2009,0x2ba14bed0c671},{2009,0x3f5d7a39bf73e},{2009,0x46119cb8c53de},{2009,0x4d4379e5a6657},{2009,0x4e135f33754a3},{2009,0x5cc9442d2b209},{2009,0x604b9381dea22},{2009,0x6c6e098336ccb},{2009,0x7ed781a661df7},{2009,0x8f34d8c82f50d},{2009,0x92ca764da85b8},{2009,0x978470e813b3a},{2009,0x983efd907c3c4},{2009,0x9b692da8c883c},{2009,0x9bfd8b3edfaf9},{2009,0x9d15f18a419bb},{2009,0x9deabdc1e5273},{2009,0x9eecec4f00861},{2009,0xc1a06d6333812},{2009,0xc3725e54b32a8},{2009,0xc7008fc12032e},{2009,0xc7b699a39c67c},{2009,0xccae8f8b026d3},{2009,0xe36cd1be6eebc},{2009,0xe9cecb1f24b95},{2009,0xedc21c5055042},{2009,0xf40c01fe37b16},
{2010,0x53fd5cffffd7},{2010,0xede3899384cb},{2010,0xf8a3c189794f},{2010,0x10a5514f6ed0e},{2010,0x115b5b31eb05c},{2010,0x126c6a05a5551},{2010,0x1eccbd6f62709},{2010,0x1fb52fee53af1},{2010,0x220e1772428d7},{2010,0x23a9e26d892e7},{2010,0x2ba14bed0c671},{2010,0x46119cb8c53de},{2010,0x4d4379e5a6657},{2010,0x5140b209f586f},{2010,0x5cc9442d2b209},{2010,0x604b9381dea22},{2010,0x6c88fa6ac3b6c},{2010,0x6ea41bfdd24d8},{2010,0x8f34d8c82f50d},{2010,0x983efd907c3c4},{2010,0x9b02d6c22e67d},{2010,0x9bfd8b3edfaf9},{2010,0x9deabdc1e5273},{2010,0xb4560d64f10e6},{2010,0xbd78a153414fb},{2010,0xbe7b7a8c422a8},{2010,0xc1a06d6333812},{2010,0xc3725e54b32a8},{2010,0xc7008fc12032e},{2010,0xc7b699a39c67c},{2010,0xc8c7a87756b71},{2010,0xdf834fe28b792},{2010,0xe36cd1be6eebc},{2010,0xedc21c5055042},
{2011,0xede3899384cb},{2011,0xf13ff3cabbf7},{2011,0xf8a3c189794f},{2011,0x17c1b42848e1a},{2011,0x1eccbd6f62709},{2011,0x1fb52fee53af1},{2011,0x220e1772428d7},{2011,0x259450418edc7},{2011,0x2941a7dad3317},{2011,0x3a754a3bbf5ab},{2011,0x44331df39bca5},{2011,0x45dafe22da70d},{2011,0x5140b209f586f},{2011,0x5cc9442d2b209},{2011,0x604b9381dea22},{2011,0x6c88fa6ac3b6c},{2011,0x87706b0213d09},{2011,0x8f34d8c82f50d},{2011,0x9a1fca07300f4},{2011,0x9bfd8b3edfaf9},{2011,0xaa7e891daa81b},{2011,0xb4560d64f10e6},{2011,0xbd78a153414fb},{2011,0xc3725e54b32a8},{2011,0xc7b699a39c67c},{2011,0xcc55d9e3c3bf7},{2011,0xcd315f85f800d},{2011,0xd5939a57515b6},{2011,0xdf834fe28b792},{2011,0xe36cd1be6eebc},{2011,0xe70699f2b73dc},{2011,0xe94c85c298c4c},{2011,0xf220185ae4ee5},{2011,0xf54d694008c04},{2011,0xff9cf420fc312},
{2012,0xede3899384cb},{2012,0x1740bed569977},{2012,0x17c1b42848e1a},{2012,0x1ac9b794d7d17},{2012,0x1eccbd6f62709},{2012,0x1fb52fee53af1},{2012,0x20afb5518836a},{2012,0x220e1772428d7},{2012,0x23dafb8c66b67},{2012,0x259450418edc7},{2012,0x2941a7dad3317},{2012,0x35eea1b4eb700},{2012,0x3dcb00ce46c89},{2012,0x45dafe22da70d},{2012,0x56825da1d1568},{2012,0x5cc9442d2b209},{2012,0x604b9381dea22},{2012,0x6d9a093e7e061},{2012,0x70ec44b0dd103},{2012,0x71454bf079997},{2012,0x77675b9df54fc},{2012,0x83a3e6a56ad12},{2012,0x8674e7f7de5fe},{2012,0x8f34d8c82f50d},{2012,0x9bfd8b3edfaf9},{2012,0x9fe771b2350da},{2012,0xae331c2713a8d},{2012,0xbfb560ca60436},{2012,0xc3725e54b32a8},{2012,0xc70ed1cce24ef},{2012,0xc7b699a39c67c},{2012,0xcd315f85f800d},{2012,0xde820171d2940},{2012,0xdf834fe28b792},{2012,0xe36cd1be6eebc},{2012,0xe39f22418bc47},{2012,0xe45343cb81004},{2012,0xe539b5d89314c},{2012,0xe94c85c298c4c},{2012,0xf220185ae4ee5},{2012,0xf54d694008c04},{2012,0xf5f8c520e76d1},
{2013,0xf4d9bbff0449},{2013,0xfce38623e143},{2013,0x1740bed569977},{2013,0x17c1b42848e1a},{2013,0x1eccbd6f62709},{2013,0x1fb52fee53af1},{2013,0x204133581e647},{2013,0x220e1772428d7},{2013,0x22f4897f54a1f},{2013,0x259450418edc7},{2013,0x2941a7dad3317},{2013,0x2e4bdf1ed49c9},{2013,0x3e1e20f2ba707},{2013,0x3e3c20ebdb296},{2013,0x3ed350f5324b0},{2013,0x45dafe22da70d},{2013,0x4a4b9a5076f6a},{2013,0x5b63a169dbc08},{2013,0x5cc9442d2b209},{2013,0x604b9381dea22},{2013,0x6d9a093e7e061},{2013,0x703695694af8d},{2013,0x70ec44b0dd103},{2013,0x71454bf079997},{2013,0x7994af2d11acb},{2013,0x8019829a09d7e},{2013,0x8674e7f7de5fe},{2013,0x9bfd8b3edfaf9},{2013,0x9eb3fa77a17cd},{2013,0x9fe771b2350da},{2013,0xae331c2713a8d},{2013,0xb1862e85e0ff4},{2013,0xbdb23dd685d4d},{2013,0xbfb560ca60436},{2013,0xc3725e54b32a8},{2013,0xc70ed1cce24ef},{2013,0xcf9c585675de4},{2013,0xd16be8b90551c},{2013,0xdf834fe28b792},{2013,0xe36cd1be6eebc},{2013,0xe39f22418bc47},{2013,0xe45343cb81004},{2013,0xf54d694008c04},{2013,0xff513efab6aee},
{2014,0xe1c6395d00e},{2014,0xf4d9bbff0449},{2014,0x111eaf27ede12},{2014,0x154660c639eac},{2014,0x1740bed569977},{2014,0x17c1b42848e1a},{2014,0x1b028573dc409},{2014,0x204133581e647},{2014,0x22815078cb97b},{2014,0x22f4897f54a1f},{2014,0x24c16d9978caf},{2014,0x3e3c20ebdb296},{2014,0x3ed350f5324b0},{2014,0x44430562f1987},{2014,0x45dafe22da70d},{2014,0x5cc9442d2b209},{2014,0x6d9a093e7e061},{2014,0x6ef96451f2939},{2014,0x703695694af8d},{2014,0x70ec44b0dd103},{2014,0x71454bf079997},{2014,0x83a3e6a56ad12},{2014,0x8674e7f7de5fe},{2014,0x9a0b7309d0eec},{2014,0x9bfd8b3edfaf9},{2014,0x9fe771b2350da},{2014,0xae99e8b74eb89},{2014,0xafce693e4aa88},{2014,0xb03527f2ea06a},{2014,0xb1862e85e0ff4},{2014,0xbdb23dd685d4d},{2014,0xbfb560ca60436},{2014,0xc3725e54b32a8},{2014,0xcf9c585675de4},{2014,0xd16be8b90551c},{2014,0xd78fd41c80abb},{2014,0xdf834fe28b792},{2014,0xe36cd1be6eebc},{2014,0xe39f22418bc47},{2014,0xe45343cb81004},{2014,0xe4c67cd20a0a8},{2014,0xe94c85c298c4c},{2014,0xef6a476ea1140},{2014,0xfe6e2f468d52c},{2014,0xff513efab6aee},
{2015,0xe1c6395d00e},{2015,0xf4d9bbff0449},{2015,0x1740bed569977},{2015,0x17c1b42848e1a},{2015,0x1b028573dc409},{2015,0x22815078cb97b},{2015,0x22baecfc101cd},{2015,0x2dc1e21c2d97f},{2015,0x2fc8fd8b5870b},{2015,0x31cfd3999f7af},{2015,0x360b6ff68db29},{2015,0x45dafe22da70d},{2015,0x50649bf5c9074},{2015,0x58e693990ce83},{2015,0x6d9a093e7e061},{2015,0x71454bf079997},{2015,0x73af063f5f5ff},{2015,0x7f50d3dab4028},{2015,0x836a4a22264c0},{2015,0x83a3e6a56ad12},{2015,0x8674e7f7de5fe},{2015,0x96f4699fe866d},{2015,0x9bfd8b3edfaf9},{2015,0x9fe771b2350da},{2015,0xb1862e85e0ff4},{2015,0xb7c1e5045575f},{2015,0xbdb23dd685d4d},{2015,0xbfb560ca60436},{2015,0xc7a8dc906b10d},{2015,0xcf9c585675de4},{2015,0xd16be8b90551c},{2015,0xd78fd41c80abb},{2015,0xdf834fe28b792},{2015,0xe36cd1be6eebc},{2015,0xe39f22418bc47},{2015,0xe45343cb81004},{2015,0xe48ce04ec5856},{2015,0xe5aceedf1c1f0},{2015,0xe776cba896469},{2015,0xe7ed0bffc9524},{2015,0xe94c85c298c4c},{2015,0xef6a476ea1140},
{2016,0xbf9b8ea596f},{2016,0xd2bf8f790641},{2016,0xf4d9bbff0449},{2016,0x12ded2eb1def2},{2016,0x17c1b42848e1a},{2016,0x22815078cb97b},{2016,0x229e1eba6dda4},{2016,0x22ac85db3efb9},{2016,0x22baecfc101cd},{2016,0x2fc8fd8b5870b},{2016,0x45dafe22da70d},{2016,0x50649bf5c9074},{2016,0x6d9a093e7e061},{2016,0x71454bf079997},{2016,0x73af063f5f5ff},{2016,0x782606d3ff0a7},{2016,0x83871863c88e9},{2016,0x83a3e6a56ad12},{2016,0x9fe771b2350da},{2016,0xaa5353bb371dd},{2016,0xb1862e85e0ff4},{2016,0xbdb23dd685d4d},{2016,0xc7a8dc906b10d},{2016,0xcab7bd666f387},{2016,0xcdcc19276bb97},{2016,0xcf9c585675de4},{2016,0xd16be8b90551c},{2016,0xd78fd41c80abb},{2016,0xdcac7a5c67520},{2016,0xdf834fe28b792},{2016,0xe470120d2342d},{2016,0xe48ce04ec5856},{2016,0xe7ed0bffc9524},{2016,0xe931ab7671754},{2016,0xef6a476ea1140},
{2017,0xbf9b8ea596f},{2017,0xae324ba7bd2b},{2017,0xd2bf8f790641},{2017,0xeaf70b0c34d7},{2017,0x17c1b42848e1a},{2017,0x18fd10cd97a01},{2017,0x22815078cb97b},{2017,0x22ac85db3efb9},{2017,0x231157c0f6e48},{2017,0x2b2db2728704c},{2017,0x37af3cd807eda},{2017,0x390273bf8f983},{2017,0x50649bf5c9074},{2017,0x5aba62ad9ee0b},{2017,0x5f121267f326c},{2017,0x6f3173215394a},{2017,0x81a45f89c1e3a},{2017,0x83871863c88e9},{2017,0x83957f8499afd},{2017,0x8ca739b6a7b2e},{2017,0x935956603c50d},{2017,0x952eabf03bf8e},{2017,0x9fe771b2350da},{2017,0xaa5353bb371dd},{2017,0xb1862e85e0ff4},{2017,0xb402c8c8de795},{2017,0xc10cd51fbd079},{2017,0xc36060cecae8b},{2017,0xc7a8dc906b10d},{2017,0xcf9c585675de4},{2017,0xd16be8b90551c},{2017,0xd37fc1882b569},{2017,0xd78fd41c80abb},{2017,0xe24cc32e18522},{2017,0xe470120d2342d},{2017,0xe47e792df4642},{2017,0xe48ce04ec5856},{2017,0xe7ed0bffc9524},{2017,0xe931ab7671754},{2017,0xef6a476ea1140},
{2018,0x2d3745dcb9bc},{2018,0x17c1b42848e1a},{2018,0x1ce107a71a979},{2018,0x22815078cb97b},{2018,0x22ac85db3efb9},{2018,0x22c9541ce13e2},{2018,0x2a2aa1829517e},{2018,0x31cfd3999f7af},{2018,0x34fb158be095f},{2018,0x37af3cd807eda},{2018,0x390273bf8f983},{2018,0x50649bf5c9074},{2018,0x523476ef784a4},{2018,0x5319cf1f83c51},{2018,0x5406bf6dacf40},{2018,0x5ab6d2c8170d0},{2018,0x5f121267f326c},{2018,0x642a35f60e736},{2018,0x6f3173215394a},{2018,0x749ab5aef4767},{2018,0x7e43c8800759b},{2018,0x83871863c88e9},{2018,0x83957f8499afd},{2018,0x8ca739b6a7b2e},{2018,0x935956603c50d},{2018,0x952eabf03bf8e},{2018,0xb402c8c8de795},{2018,0xc36060cecae8b},{2018,0xc7a8dc906b10d},{2018,0xcab7bd666f387},{2018,0xcf9c585675de4},{2018,0xd16be8b90551c},{2018,0xd37fc1882b569},{2018,0xe444dcaaafdf0},{2018,0xe48ce04ec5856},{2018,0xe51ce796f0d23},{2018,0xed8d54d17a526},{2018,0xef6a476ea1140},{2018,0xf2a17ebee107f},
{2019,0xa75e1391c96d},{2019,0x17c1b42848e1a},{2019,0x1ce107a71a979},{2019,0x22815078cb97b},{2019,0x22ac85db3efb9},{2019,0x2af1bdb35517e},{2019,0x34fb158be095f},{2019,0x37af3cd807eda},{2019,0x390273bf8f983},{2019,0x3d479ebc2f0f9},{2019,0x4e53e57a1f68f},{2019,0x50649bf5c9074},{2019,0x523476ef784a4},{2019,0x5328364054e65},{2019,0x5406bf6dacf40},{2019,0x59b999613a7f1},{2019,0x5ab6d2c8170d0},{2019,0x5f121267f326c},{2019,0x642a35f60e736},{2019,0x749ab5aef4767},{2019,0x7d07a46fa64fe},{2019,0x7e43c8800759b},{2019,0x83871863c88e9},{2019,0x83cf1c07de34f},{2019,0x9bcc2426bc149},{2019,0xa47dc2f33b491},{2019,0xb402c8c8de795},{2019,0xc7a8dc906b10d},{2019,0xcab7bd666f387},{2019,0xd711cb96c0854},{2019,0xdf7c9ec53fd21},{2019,0xdfc1d82e01e29},{2019,0xe48ce04ec5856},{2019,0xe51ce796f0d23},{2019,0xed8d54d17a526},{2019,0xf0f1b7d9a327d},{2019,0xf2a17ebee107f},{2019,0xfc9d68a7a00b4},
{2020,0xa75e1391c96d},{2020,0x1691338a2dc93},{2020,0x17c1b42848e1a},{2020,0x204f6111faead},{2020,0x22815078cb97b},{2020,0x22ac85db3efb9},{2020,0x34fb158be095f},{2020,0x390273bf8f983},{2020,0x3d479ebc2f0f9},{2020,0x3e306ef1bde99},{2020,0x4112241c3fcf2},{2020,0x42ee31930452d},{2020,0x5328364054e65},{2020,0x5406bf6dacf40},{2020,0x5ab6d2c8170d0},{2020,0x5f6c7354c80a2},{2020,0x642a35f60e736},{2020,0x749ab5aef4767},{2020,0x83871863c88e9},{2020,0x83cf1c07de34f},{2020,0x8760843764397},{2020,0xa560728317911},{2020,0xa7e77677cd46f},{2020,0xaa39a88483136},{2020,0xb402c8c8de795},{2020,0xb47601cf67839},{2020,0xc35b32accad17},{2020,0xcc396d6b00de1},{2020,0xcca7b7ba907e2},{2020,0xddd4baa009302},{2020,0xdf7c9ec53fd21},{2020,0xf0f1b7d9a327d},{2020,0xfc9d68a7a00b4},
{2021,0x9f1ae0f7ce43},{2021,0xa75e1391c96d},{2021,0x105d1874d2098},{2021,0x1eb2d66005834},{2021,0x22815078cb97b},{2021,0x34fb158be095f},{2021,0x390273bf8f983},{2021,0x3ad4c35c903f0},{2021,0x4112241c3fcf2},{2021,0x42ee31930452d},{2021,0x46fe7cce7292b},{2021,0x4a750b6077b0a},{2021,0x50121b42197af},{2021,0x5328364054e65},{2021,0x5406bf6dacf40},{2021,0x5ab6d2c8170d0},{2021,0x5f6c7354c80a2},{2021,0x642a35f60e736},{2021,0x6b7ba924198da},{2021,0x749ab5aef4767},{2021,0x7d4f223d260d5},{2021,0x7e2ed3362d34d},{2021,0x7e43c8800759b},{2021,0x83cf1c07de34f},{2021,0x8760843764397},{2021,0x8fb0d1d5aae23},{2021,0x9868f6d84f78c},{2021,0xa560728317911},{2021,0xa852140aa67fa},{2021,0xb98d97471f19b},{2021,0xcc396d6b00de1},{2021,0xcca7b7ba907e2},{2021,0xddd4baa009302},{2021,0xea412c057a112},{2021,0xeb84daccf76a1},{2021,0xecd5b9ba0d929},{2021,0xfc9d68a7a00b4},
{2022,0x9f1ae0f7ce43},{2022,0xa75e1391c96d},{2022,0x105d1874d2098},{2022,0x28ba2f03c794c},{2022,0x2eab09eaadeb6},{2022,0x2feb7513cd6e0},{2022,0x390273bf8f983},{2022,0x3ad4c35c903f0},{2022,0x4112241c3fcf2},{2022,0x46fe7cce7292b},{2022,0x4a750b6077b0a},{2022,0x5328364054e65},{2022,0x5b98a37ade668},{2022,0x5f51efb2373a0},{2022,0x642a35f60e736},{2022,0x6d4d415ce84de},{2022,0x774456697fd7d},{2022,0x7ab946e298860},{2022,0x7e2ed3362d34d},{2022,0x7e43c8800759b},{2022,0x8fb0d1d5aae23},{2022,0x9868f6d84f78c},{2022,0xa852140aa67fa},{2022,0xadf51fa055e02},{2022,0xb28857496ffb7},{2022,0xb98d97471f19b},{2022,0xc23403e643ec8},{2022,0xca3d6a44fe924},{2022,0xcc396d6b00de1},{2022,0xcca7b7ba907e2},{2022,0xcdaee45288a3c},{2022,0xd277be5923457},{2022,0xddd4baa009302},{2022,0xfc9d68a7a00b4},{2022,0xff6c284eded37},
{2023,0x5b3794944a1},{2023,0x48d94c355f04},{2023,0x105d1874d2098},{2023,0x1545153db9e4f},{2023,0x1998081e7215c},{2023,0x28ba2f03c794c},{2023,0x333e89deed1f8},{2023,0x369712e805f8e},{2023,0x390273bf8f983},{2023,0x4112241c3fcf2},{2023,0x46fe7cce7292b},{2023,0x5328364054e65},{2023,0x5a0af505e8238},{2023,0x64020a127fad7},{2023,0x642a35f60e736},{2023,0x6d4d415ce84de},{2023,0x774456697fd7d},{2023,0x7ab946e298860},{2023,0x7e2ed3362d34d},{2023,0x7e4996672ef61},{2023,0x8c11f7d9802a3},{2023,0x947db7cd178c2},{2023,0x9868f6d84f78c},{2023,0x9d52e3fda18c3},{2023,0x9ed2f8bb00613},{2023,0xadf51fa055e02},{2023,0xb28857496ffb7},{2023,0xb98d97471f19b},{2023,0xbd174685ab5f2},{2023,0xc23403e643ec8},{2023,0xcca7b7ba907e2},{2023,0xcdaee45288a3c},{2023,0xd0079e23969c2},{2023,0xda3f4b253c51b},{2023,0xddd4baa009302},{2023,0xe5f16268199fc},{2023,0xe6c7182bb100d},{2023,0xea7dbb35abdc0},{2023,0xf620f10476330},{2023,0xf6a774a78e2fb},{2023,0xf7d011a904796},{2023,0xfc9d68a7a00b4},
{2024,0x8d81ee76f371},{2024,0x105d1874d2098},{2024,0x11f4d2fe2b05c},{2024,0x15cc14a2aceb5},{2024,0x1f98323eb8bae},{2024,0x2723c47ea4be9},{2024,0x30131c1f1a2b6},{2024,0x32fdc935ebfce},{2024,0x369712e805f8e},{2024,0x390273bf8f983},{2024,0x3c1a7d4ca7cb9},{2024,0x3eb96a4b31d6c},{2024,0x46fe7cce7292b},{2024,0x4d497f9c6ccf0},{2024,0x6640279b24916},{2024,0x665f8bf806e41},{2024,0x6d4d415ce84de},{2024,0x774456697fd7d},{2024,0x7ab946e298860},{2024,0x7e4996672ef61},{2024,0x8a35e6c407948},{2024,0x8c11f7d9802a3},{2024,0x9065d1e9a1573},{2024,0x9868f6d84f78c},{2024,0x9e76a5646e394},{2024,0x9ed2f8bb00613},{2024,0xa9b45a91f16ff},{2024,0xb1b71930af407},{2024,0xb28857496ffb7},{2024,0xc23403e643ec8},{2024,0xcca7b7ba907e2},{2024,0xcdaee45288a3c},{2024,0xda3f4b253c51b},{2024,0xddd4baa009302},{2024,0xe5f16268199fc},{2024,0xea7dbb35abdc0},{2024,0xf6a774a78e2fb},{2024,0xf7d011a904796},
{2025,0x8d81ee76f371},{2025,0x105d1874d2098},{2025,0x11f4d2fe2b05c},{2025,0x15cc14a2aceb5},{2025,0x1f98323eb8bae},{2025,0x2aa4f4a405be1},{2025,0x2ed34c089f6c4},{2025,0x30131c1f1a2b6},{2025,0x32fdc935ebfce},{2025,0x3c1a7d4ca7cb9},{2025,0x46fe7cce7292b},{2025,0x60667cd606c6b},{2025,0x6640279b24916},{2025,0x6d4d415ce84de},{2025,0x72e8bac4b979f},{2025,0x774456697fd7d},{2025,0x7a55cc6559663},{2025,0x867f85d73bb9e},{2025,0x8a35e6c407948},{2025,0x9065d1e9a1573},{2025,0x92a93f491e0d8},{2025,0x97cd98eec6041},{2025,0x9868f6d84f78c},{2025,0x9ed2f8bb00613},{2025,0xaafcb22ce2b4d},{2025,0xb1b71930af407},{2025,0xb28857496ffb7},{2025,0xb7266b9ec5088},{2025,0xbb02507b17e0e},{2025,0xc1f3433d42c9e},{2025,0xc23403e643ec8},{2025,0xc3502510a75c2},{2025,0xd412b3272ec62},{2025,0xd8bc983052c45},{2025,0xda3f4b253c51b},{2025,0xddd4baa009302},{2025,0xe5f16268199fc},{2025,0xf7d011a904796},
{2026,0xcc7a8fa052b1},{2026,0x11f4d2fe2b05c},{2026,0x15cc14a2aceb5},{2026,0x1f98323eb8bae},{2026,0x2aa4f4a405be1},{2026,0x2e2a251461a67},{2026,0x30131c1f1a2b6},{2026,0x33057606449fa},{2026,0x3c1a7d4ca7cb9},{2026,0x4672b9cdd0846},{2026,0x4688358616619},{2026,0x6202598194bee},{2026,0x6640279b24916},{2026,0x6d4d415ce84de},{2026,0x72e8bac4b979f},{2026,0x774456697fd7d},{2026,0x88ddd9bfdced9},{2026,0x8a35e6c407948},{2026,0x9065d1e9a1573},{2026,0x92a93f491e0d8},{2026,0x93f196e40f526},{2026,0x9868f6d84f78c},{2026,0x9e49d569235bb},{2026,0x9ed2f8bb00613},{2026,0xaafcb22ce2b4d},{2026,0xbff76ef6089d2},{2026,0xda3f4b253c51b},{2026,0xdba397f46c037},{2026,0xdd020ac7a432f},{2026,0xddd4baa009302},{2026,0xe5f16268199fc},{2026,0xe97a64ef23031},{2026,0xeee0ba088f0c9},{2026,0xf7d011a904796},{2026,0xf8b57eb909b47},
{2027,0xc2aee772cd62},{2027,0x11f4d2fe2b05c},{2027,0x15cc14a2aceb5},{2027,0x1bb64ecf05749},{2027,0x1f98323eb8bae},{2027,0x21fb1cdb8748e},{2027,0x2e2a251461a67},{2027,0x30131c1f1a2b6},{2027,0x31095dd34f1f1},{2027,0x33057606449fa},{2027,0x3c1a7d4ca7cb9},{2027,0x3d3317453172b},{2027,0x3e0e65d2861da},{2027,0x4672b9cdd0846},{2027,0x4688358616619},{2027,0x5052dbeb1a9d9},{2027,0x59dffd955c692},{2027,0x6202598194bee},{2027,0x6640279b24916},{2027,0x7a78863997636},{2027,0x7de34a424b33c},{2027,0x88ddd9bfdced9},{2027,0x9065d1e9a1573},{2027,0x93d8693d6ea76},{2027,0x93f196e40f526},{2027,0x9868f6d84f78c},{2027,0x9ed2f8bb00613},{2027,0xa800774ce94e1},{2027,0xac8dfdc7883d9},{2027,0xc5e0d44689e5e},{2027,0xcee614cb08e6a},{2027,0xda3f4b253c51b},{2027,0xdba397f46c037},{2027,0xe1dcd80a2faa6},{2027,0xeee0ba088f0c9},{2027,0xf7d011a904796},{2027,0xf8b57eb909b47},
{2028,0x64e49d158d1a},{2028,0x99d0c69d28dc},{2028,0x11f4d2fe2b05c},{2028,0x143efbe4854fd},{2028,0x15cc14a2aceb5},{2028,0x171b7d6ddce1a},{2028,0x17faa559c5623},{2028,0x18b5eaef8a77c},{2028,0x1bb64ecf05749},{2028,0x1f98323eb8bae},{2028,0x21fb1cdb8748e},{2028,0x294ed4227ead4},{2028,0x2aa4f4a405be1},{2028,0x2e2a251461a67},{2028,0x30131c1f1a2b6},{2028,0x33057606449fa},{2028,0x3a592d4d3c040},{2028,0x3c1a7d4ca7cb9},{2028,0x3cbc17ea0a920},{2028,0x490abad057752},{2028,0x5052dbeb1a9d9},{2028,0x55868a28f61a0},{2028,0x5d3209d9eb60d},{2028,0x6202598194bee},{2028,0x67ee2b4727c02},{2028,0x7a78863997636},{2028,0x7af9f832d208a},{2028,0x80ba85247432a},{2028,0x93f196e40f526},{2028,0x9868f6d84f78c},{2028,0x9ed2f8bb00613},{2028,0xa800774ce94e1},{2028,0xbff76ef6089d2},{2028,0xcee614cb08e6a},{2028,0xd2a1be4048f90},{2028,0xd39fe3d6b390b},{2028,0xd5b7c62ed9024},{2028,0xd65d67b5890b6},{2028,0xe1dcd80a2faa6},{2028,0xe81f674d0aa85},{2028,0xf7d011a904796},{2028,0xf8b57eb909b47},
{2029,0x550560f85065},{2029,0x79498fd8809f},{2029,0x1083f09dfd76c},{2029,0x127803433b255},{2029,0x17faa559c5623},{2029,0x1973483e72e39},{2029,0x1f98323eb8bae},{2029,0x21fb1cdb8748e},{2029,0x22629fdee8506},{2029,0x247383309bb41},{2029,0x294ed4227ead4},{2029,0x2aa4f4a405be1},{2029,0x2e2a251461a67},{2029,0x33057606449fa},{2029,0x37e0c6f82798d},{2029,0x3c1a7d4ca7cb9},{2029,0x3c8eeb77b8d04},{2029,0x490abad057752},{2029,0x50295bb19676c},{2029,0x55868a28f61a0},{2029,0x5bc471d5456c7},{2029,0x6202598194bee},{2029,0x67ee2b4727c02},{2029,0x6b154e30a57a4},{2029,0x6e7e28da3363c},{2029,0x7af9f832d208a},{2029,0x80ba85247432a},{2029,0x836092011410a},{2029,0x88581209678b5},{2029,0x9868f6d84f78c},{2029,0x9ed2f8bb00613},{2029,0xa800774ce94e1},{2029,0xbff76ef6089d2},{2029,0xcb5a00b362ab6},{2029,0xd2a1be4048f90},{2029,0xd39fe3d6b390b},{2029,0xe1e17fa0bb55e},{2029,0xe54c0d8a8954e},{2029,0xf7d011a904796},
{2030,0x74f9d8549dcf},{2030,0x79498fd8809f},{2030,0x1083f09dfd76c},{2030,0x1596f71962ce8},{2030,0x17faa559c5623},{2030,0x1973483e72e39},{2030,0x1a5c153bcd4cf},{2030,0x1f98323eb8bae},{2030,0x21fb1cdb8748e},{2030,0x22629fdee8506},{2030,0x294ed4227ead4},{2030,0x2965072f4a20a},{2030,0x2e2a251461a67},{2030,0x33057606449fa},{2030,0x33d49a2956e64},{2030,0x37e0c6f82798d},{2030,0x3c1a7d4ca7cb9},{2030,0x3c8eeb77b8d04},{2030,0x490abad057752},{2030,0x4f48a27ca6c79},{2030,0x50295bb19676c},{2030,0x55868a28f61a0},{2030,0x58a57dff1dc34},{2030,0x5bc471d5456c7},{2030,0x6202598194bee},{2030,0x6840412de4115},{2030,0x7af9f832d208a},{2030,0x7f869de13417e},{2030,0x836092011410a},{2030,0x9ed2f8bb00613},{2030,0xa9ac482fb0ddb},{2030,0xb96504edeb410},{2030,0xbc1bf173eeb38},{2030,0xd2a1be4048f90},{2030,0xd39fe3d6b390b},{2030,0xd3d1f27e2da38},{2030,0xdd5c1cd2de00b},{2030,0xe5007376e2ff2},{2030,0xed1868c43d2a0},{2030,0xf7d011a904796},{2030,0xf8ce838cca513},{2030,0xfdf79cccaa695},
{2031,0x79498fd8809f},{2031,0x1083f09dfd76c},{2031,0x17faa559c5623},{2031,0x1973483e72e39},{2031,0x1d59651a2c341},{2031,0x1f98323eb8bae},{2031,0x21fb1cdb8748e},{2031,0x22629fdee8506},{2031,0x2b3b49443a8c4},{2031,0x2e2a251461a67},{2031,0x339f93d743637},{2031,0x37e0c6f82798d},{2031,0x3c1a7d4ca7cb9},{2031,0x3c8eeb77b8d04},{2031,0x457e43182e3d1},{2031,0x4f0f560133707},{2031,0x50295bb19676c},{2031,0x52679652ce70d},{2031,0x55868a28f61a0},{2031,0x58a57dff1dc34},{2031,0x5bc471d5456c7},{2031,0x5ee365ab6d15b},{2031,0x6202598194bee},{2031,0x6f0b8727bafe3},{2031,0x7af9f832d208a},{2031,0x7bbc0c237e908},{2031,0x7bbc3b5d0f123},{2031,0x978ed8c95f9ad},{2031,0x9a2f7e905ea4d},{2031,0x9ed2f8bb00613},{2031,0xa155b57f37477},{2031,0xa868c245c9b09},{2031,0xa9ac482fb0ddb},{2031,0xc1e9b618f1b02},{2031,0xc408636219bb6},{2031,0xc9944350c0cc7},{2031,0xd2a1be4048f90},{2031,0xd3d1f27e2da38},{2031,0xd47a01e5a36ea},{2031,0xe5007376e2ff2},{2031,0xfcfd5387480b4},{2031,0xfdf79cccaa695},
{2032,0x18a6bd1da9d0},{2032,0x79498fd8809f},{2032,0x1083f09dfd76c},{2032,0x17faa559c5623},{2032,0x1973483e72e39},{2032,0x22629fdee8506},{2032,0x2592dbdd47a16},{2032,0x2b3b49443a8c4},{2032,0x2e2a251461a67},{2032,0x37e0c6f82798d},{2032,0x3c8eeb77b8d04},{2032,0x471be0c20e4a3},{2032,0x48a9993b38f06},{2032,0x4cf9b155150ae},{2032,0x4f0f560133707},{2032,0x50295bb19676c},{2032,0x58a57dff1dc34},{2032,0x5bc471d5456c7},{2032,0x62dc7eeee0a0a},{2032,0x6f0b8727bafe3},{2032,0x7af9f832d208a},{2032,0x7bbc0c237e908},{2032,0x9ed2f8bb00613},{2032,0xa868c245c9b09},{2032,0xba7accaaf56c1},{2032,0xc1e9b618f1b02},{2032,0xc408636219bb6},{2032,0xcdbf0545dfadc},{2032,0xd2a1be4048f90},{2032,0xd89a8b4b77dd3},{2032,0xdc8ca27d9b5f6},{2032,0xea325bf46d6d0},{2032,0xfdf79cccaa695},
{2033,0x27c1e7f56527},{2033,0x79498fd8809f},{2033,0x1083f09dfd76c},{2033,0x11c2c456b0f2f},{2033,0x17faa559c5623},{2033,0x22629fdee8506},{2033,0x2e2a251461a67},{2033,0x2f8b430de9d63},{2033,0x3c8eeb77b8d04},{2033,0x48a9993b38f06},{2033,0x4cf9b155150ae},{2033,0x4f0f560133707},{2033,0x50295bb19676c},{2033,0x58a57dff1dc34},{2033,0x5bc471d5456c7},{2033,0x73be48fb1ca8c},{2033,0x76ab9bc24c345},{2033,0x7bbc0c237e908},{2033,0x7f43dfac91542},{2033,0x9d2ddbd301f1e},{2033,0x9ed2f8bb00613},{2033,0x9fc7a80b24747},{2033,0xa868c245c9b09},{2033,0xade841151659c},{2033,0xaecedd7ee5341},{2033,0xb1edd1550cdd4},{2033,0xd2a1be4048f90},{2033,0xd89a8b4b77dd3},{2033,0xea325bf46d6d0},{2033,0xecfe65d8d5689},{2033,0xfdf79cccaa695},
{2034,0x27c1e7f56527},{2034,0x8ba062ba5a4e},{2034,0x11c2c456b0f2f},{2034,0x13502d9aabb1d},{2034,0x17faa559c5623},{2034,0x22629fdee8506},{2034,0x23c2f433d79c3},{2034,0x2d90ce3f3a0ad},{2034,0x2e2a251461a67},{2034,0x2f8b430de9d63},{2034,0x3c8eeb77b8d04},{2034,0x406725bf35f89},{2034,0x4f0f560133707},{2034,0x50295bb19676c},{2034,0x5746315d39e69},{2034,0x5bc471d5456c7},{2034,0x5df94eb036bac},{2034,0x66f8e68fc30d7},{2034,0x76ab9bc24c345},{2034,0x7bbc0c237e908},{2034,0x7c5dcf1872271},{2034,0x7f43dfac91542},{2034,0x861d0f915da05},{2034,0x8f0c6731d30d2},{2034,0x97fbbed24879f},{2034,0xa868c245c9b09},{2034,0xade841151659c},{2034,0xaecedd7ee5341},{2034,0xd2a1be4048f90},{2034,0xea325bf46d6d0},{2034,0xecc4fb0271b55},{2034,0xed246faaf1fb8},{2034,0xf5faaace7fa70},
{2035,0x32c7d9a66d2},{2035,0xb19a05e555e8},{2035,0x11c2c456b0f2f},{2035,0x17faa559c5623},{2035,0x22629fdee8506},{2035,0x23a516e82d9ba},{2035,0x23c2f433d79c3},{2035,0x2914f50af375c},{2035,0x29a71ba0e0b93},{2035,0x2a71da691261a},{2035,0x2e2a251461a67},{2035,0x3c8eeb77b8d04},{2035,0x44aaa00a3fbba},{2035,0x4a9185d21259f},{2035,0x4f0f560133707},{2035,0x52e42f9c20843},{2035,0x5bc471d5456c7},{2035,0x5df94eb036bac},{2035,0x66f8e68fc30d7},{2035,0x6fbf4fca23741},{2035,0x76ab9bc24c345},{2035,0x7bbc0c237e908},{2035,0x7c5dcf1872271},{2035,0x7f43dfac91542},{2035,0x861d0f915da05},{2035,0x8f0c6731d30d2},{2035,0x984d86783fd9e},{2035,0x9ad3ff8a072c7},{2035,0x9f341a501ee5f},{2035,0xa868c245c9b09},{2035,0xade841151659c},{2035,0xaecedd7ee5341},{2035,0xc5e8af49eae4e},{2035,0xd2a1be4048f90},{2035,0xe02174eb183ee},{2035,0xea325bf46d6d0},{2035,0xecc4fb0271b55},{2035,0xed246faaf1fb8},{2035,0xf0168361768a0},{2035,0xf0fd5f09ce9d4},{2035,0xfcd724dd7b226},
{2036,0x32c7d9a66d2},{2036,0x38f13f7d8993},{2036,0xe090764d92ad},{2036,0x11c2c456b0f2f},{2036,0x17faa559c5623},{2036,0x1995f04a5c034},{2036,0x1ff674b5894cb},{2036,0x22629fdee8506},{2036,0x26b507ea5c2ab},{2036,0x29a71ba0e0b93},{2036,0x2e2a251461a67},{2036,0x356f6a7af2f33},{2036,0x4f0f560133707},{2036,0x5bc471d5456c7},{2036,0x66f8e68fc30d7},{2036,0x6b7e9b1004e7c},{2036,0x76ab9bc24c345},{2036,0x7b236a943b4a5},{2036,0x7c5dcf1872271},{2036,0x7f43dfac91542},{2036,0x8cb36e128da0c},{2036,0x984d86783fd9e},{2036,0x9ad3ff8a072c7},{2036,0x9cc442858037a},{2036,0x9f341a501ee5f},{2036,0xade841151659c},{2036,0xaecedd7ee5341},{2036,0xb577a25c44697},{2036,0xbd2ab5f28e483},{2036,0xc5e8af49eae4e},{2036,0xd2a1be4048f90},{2036,0xed246faaf1fb8},{2036,0xeda1fdd28eefa},{2036,0xefcbda244d889},{2036,0xf0168361768a0},{2036,0xf0fd5f09ce9d4},{2036,0xf4fdca44368ef},
{2037,0xaa8ec2744c61},{2037,0x11c2c456b0f2f},{2037,0x17faa559c5623},{2037,0x18dc9c861d1fd},{2037,0x1995f04a5c034},{2037,0x1ff674b5894cb},{2037,0x26b507ea5c2ab},{2037,0x282e11c59e71f},{2037,0x4ae887b68f0e1},{2037,0x4f0f560133707},{2037,0x546e8377702ba},{2037,0x594223f5654be},{2037,0x643266e4a09ba},{2037,0x66f8e68fc30d7},{2037,0x682660452e791},{2037,0x6b7e9b1004e7c},{2037,0x76ab9bc24c345},{2037,0x82d0cbc4476a9},{2037,0x8cb36e128da0c},{2037,0xa660e86f8a04e},{2037,0xb577a25c44697},{2037,0xbbe752cdcb619},{2037,0xbd2ab5f28e483},{2037,0xc5e8af49eae4e},{2037,0xd2a1be4048f90},{2037,0xdfd2e6c94e493},{2037,0xe599939915a43},{2037,0xe8c23e69c3b60},{2037,0xed246faaf1fb8},{2037,0xeda1fdd28eefa},{2037,0xefcbda244d889},{2037,0xf0168361768a0},{2037,0xf051e71a27cbc},{2037,0xf0fd5f09ce9d4},{2037,0xf1b1960a3922d},{2037,0xfaa0edaaae8fa},
{2038,0xe35d83efadc8},{2038,0x11c2c456b0f2f},{2038,0x154fb06e67096},{2038,0x17faa559c5623},{2038,0x18dc9c861d1fd},{2038,0x1995f04a5c034},{2038,0x1dccead2099ad},{2038,0x1ff674b5894cb},{2038,0x23a516e82d9ba},{2038,0x26b507ea5c2ab},{2038,0x27718cd7fd4e5},{2038,0x27cfcf4ecde02},{2038,0x282e11c59e71f},{2038,0x4377ada2a62d1},{2038,0x4a49c80d7c2ec},{2038,0x4f0f560133707},{2038,0x53eef171eacb1},{2038,0x594223f5654be},{2038,0x5b9adb2330f4c},{2038,0x643266e4a09ba},{2038,0x682660452e791},{2038,0x750e510356fa0},{2038,0x7c19049149444},{2038,0x8cb36e128da0c},{2038,0x985829c5a2e2b},{2038,0xa660e86f8a04e},{2038,0xaa97e2f7379c7},{2038,0xb577a25c44697},{2038,0xbbe752cdcb619},{2038,0xbd2ab5f28e483},{2038,0xc504dfe7ee02c},{2038,0xd2a1be4048f90},{2038,0xe8b952192b25c},{2038,0xe8c23e69c3b60},{2038,0xed246faaf1fb8},{2038,0xf0168361768a0},{2038,0xf051e71a27cbc},{2038,0xf0fd5f09ce9d4},{2038,0xf1b1960a3922d},
{2039,0xe35d83efadc8},{2039,0x11c2c456b0f2f},{2039,0x154fb06e67096},{2039,0x17faa559c5623},{2039,0x1995f04a5c034},{2039,0x1a5a539ed4e97},{2039,0x1f510f31990c8},{2039,0x1ff674b5894cb},{2039,0x26b507ea5c2ab},{2039,0x27cfcf4ecde02},{2039,0x296cc69b3ae38},{2039,0x2a63a08e81dcd},{2039,0x31b7112c17bce},{2039,0x3ccc9bc33e577},{2039,0x4819b9c5334f1},{2039,0x4a49c80d7c2ec},{2039,0x4f0f560133707},{2039,0x53eef171eacb1},{2039,0x5ffb6c5cf3041},{2039,0x619e922cb74cb},{2039,0x682660452e791},{2039,0x742745939c2c8},{2039,0x84663951eb728},{2039,0x8a7a1f7cdfedd},{2039,0x8cb36e128da0c},{2039,0x9d4dd793d1fd4},{2039,0xa660e86f8a04e},{2039,0xaa97e2f7379c7},{2039,0xb577a25c44697},{2039,0xc504dfe7ee02c},{2039,0xc959e39ce6d1e},{2039,0xcdcaa100831ce},{2039,0xd2a1be4048f90},{2039,0xd955ebf05e420},{2039,0xec67eabd50d7e},{2039,0xecc664822105b},{2039,0xed246faaf1fb8},{2039,0xf0fd5f09ce9d4},{2039,0xf1b1960a3922d},{2039,0xf773b4a9c1ee4},
{2040,0xa180e898d0ed},{2040,0xe35d83efadc8},{2040,0x11c2c456b0f2f},{2040,0x154fb06e67096},{2040,0x1995f04a5c034},{2040,0x1a5a539ed4e97},{2040,0x1f510f31990c8},{2040,0x1ff674b5894cb},{2040,0x26b507ea5c2ab},{2040,0x27cfcf4ecde02},{2040,0x288c543c6f03c},{2040,0x2a63a08e81dcd},{2040,0x2d4acc92d88f4},{2040,0x2ea8d4f0bff93},{2040,0x31b7112c17bce},{2040,0x3cc8ae53a783a},{2040,0x507d8a9c240fa},{2040,0x5ffb6c5cf3041},{2040,0x619e922cb74cb},{2040,0x682660452e791},{2040,0x73cbcfd0a7160},{2040,0x742745939c2c8},{2040,0x7ec8ae10bbdc4},{2040,0x832e2a663e847},{2040,0x84663951eb728},{2040,0x8605f4d487062},{2040,0x888cd3b23c89a},{2040,0x8a7a1f7cdfedd},{2040,0x914e03c9260ee},{2040,0x9d4dd793d1fd4},{2040,0xa660e86f8a04e},{2040,0xabedd5a3f2fa2},{2040,0xae74c1feaff14},{2040,0xb577a25c44697},{2040,0xc504dfe7ee02c},{2040,0xc993a678d5854},{2040,0xd2a1be4048f90},{2040,0xe50ab9750573a},{2040,0xec67eabd50d7e},{2040,0xecc664822105b},{2040,0xed246faaf1fb8},{2040,0xee3f370f63b0f},{2040,0xefb54b02b77b3},{2040,0xf1b1960a3922d},{2040,0xf773b4a9c1ee4},
{2041,0x591aa2508e79},{2041,0xe35d83efadc8},{2041,0x116ac579aac1e},{2041,0x1995f04a5c034},{2041,0x1a5a539ed4e97},{2041,0x1a87ee30ec2ec},{2041,0x212f22f4239f8},{2041,0x26e5d8c0d26dc},{2041,0x27cfcf4ecde02},{2041,0x288c543c6f03c},{2041,0x2a63a08e81dcd},{2041,0x2ea8d4f0bff93},{2041,0x31b7112c17bce},{2041,0x39d9c9288867c},{2041,0x3cc8ae53a783a},{2041,0x5ffb6c5cf3041},{2041,0x619e922cb74cb},{2041,0x6d343bf9ff649},{2041,0x73cbcfd0a7160},{2041,0x7ec8ae10bbdc4},{2041,0x832e2a663e847},{2041,0x8679868213fe1},{2041,0x888cd3b23c89a},{2041,0x8a7a1f7cdfedd},{2041,0x914e03c9260ee},{2041,0x99c0eb7c1be6d},{2041,0x9d4dd793d1fd4},{2041,0xa5856a5e3a847},{2041,0xb577a25c44697},{2041,0xc504dfe7ee02c},{2041,0xd2a1be4048f90},{2041,0xde498cdf03306},{2041,0xdea68b1f397b4},{2041,0xe14ceb2687773},{2041,0xec67eabd50d7e},{2041,0xed246faaf1fb8},{2041,0xee3f370f63b0f},{2041,0xefb54b02b77b3},{2041,0xf1b1960a3922d},
{2042,0x3f877795be77},{2042,0x591aa2508e79},{2042,0xd2d13063d47b},{2042,0x116ac579aac1e},{2042,0x13c3b35289189},{2042,0x1a5a539ed4e97},{2042,0x1a87ee30ec2ec},{2042,0x20a5dcfbcfc87},{2042,0x2a63a08e81dcd},{2042,0x31b7112c17bce},{2042,0x33981e28e01a2},{2042,0x3588c42be6bb2},{2042,0x39d9c9288867c},{2042,0x4ca84e20d4058},{2042,0x5cdbb018d299c},{2042,0x5ffb6c5cf3041},{2042,0x6969d73262b3f},{2042,0x7e2c51c171cfd},{2042,0x8679868213fe1},{2042,0x88004f058d76a},{2042,0x888cd3b23c89a},{2042,0x8a7a1f7cdfedd},{2042,0x8c516bcef2c6e},{2042,0x914e03c9260ee},{2042,0x99c0eb7c1be6d},{2042,0x9d4dd793d1fd4},{2042,0x9f50fbbe163fa},{2042,0xaaaa5eb6bebf4},{2042,0xc504dfe7ee02c},{2042,0xcb9b803439d3a},{2042,0xd0a3932a494a8},{2042,0xd232208085a48},{2042,0xd2a1be4048f90},{2042,0xe798024c2c403},{2042,0xee3f370f63b0f},{2042,0xf1b1960a3922d},
{2043,0x3f877795be77},{2043,0xf05459bac31d},{2043,0x13c3b35289189},{2043,0x278794376c8b3},{2043,0x27a758f647e0d},{2043,0x323803a4f7b24},{2043,0x33981e28e01a2},{2043,0x3430e1a36a341},{2043,0x3588c42be6bb2},{2043,0x3cabcce5b029f},{2043,0x4091f3f806880},{2043,0x556ac1ae4332a},{2043,0x5cdbb018d299c},{2043,0x5ffb6c5cf3041},{2043,0x696b4ddfdc5c3},{2043,0x789d7fb78eb31},{2043,0x82baa4ae611db},{2043,0x831cee3494899},{2043,0x8357426c5c92b},{2043,0x88004f058d76a},{2043,0x888cd3b23c89a},{2043,0x8a7a1f7cdfedd},{2043,0x914e03c9260ee},{2043,0x9bd03dc0da337},{2043,0x9d4dd793d1fd4},{2043,0xaaaa5eb6bebf4},{2043,0xb0e90e00a3b30},{2043,0xbf02fbca25b3e},{2043,0xc113d76907c57},{2043,0xcb9b803439d3a},{2043,0xd4624b01b953a},{2043,0xd7a50f24c162e},{2043,0xe0c35d5655a79},{2043,0xec8ca1b1b4e80},{2043,0xee3f370f63b0f},
{2044,0x3f877795be77},{2044,0x69672b9f176d},{2044,0x13c3b35289189},{2044,0x19a4610157b01},{2044,0x25a261d39e32e},{2044,0x278794376c8b3},{2044,0x27a758f647e0d},{2044,0x33981e28e01a2},{2044,0x3588c42be6bb2},{2044,0x4091f3f806880},{2044,0x4b3f2c00751b2},{2044,0x55c576d815726},{2044,0x5cdbb018d299c},{2044,0x5ffb6c5cf3041},{2044,0x66e2e957fa3e3},{2044,0x66fce8576b1c7},{2044,0x726dff8f30083},{2044,0x82baa4ae611db},{2044,0x831cee3494899},{2044,0x888cd3b23c89a},{2044,0x8a7a1f7cdfedd},{2044,0x914e03c9260ee},{2044,0x9bd03dc0da337},{2044,0x9d4dd793d1fd4},{2044,0xa27fbf3877721},{2044,0xa82370dc56498},{2044,0xab4c1a2d58dcb},{2044,0xad6a617291d62},{2044,0xb59ebe699acab},{2044,0xc1e2903c5a5a9},{2044,0xc7b1f3cac7433},{2044,0xcb9b803439d3a},{2044,0xd4624b01b953a},{2044,0xd7a50f24c162e},{2044,0xdea68b1f397b4},{2044,0xe0c35d5655a79},{2044,0xe963f860b254d},{2044,0xec8ca1b1b4e80},
{2045,0x3f877795be77},{2045,0x69672b9f176d},{2045,0x13c3b35289189},{2045,0x170f0378af010},{2045,0x25a261d39e32e},{2045,0x25e6f9f7a9dac},{2045,0x2b2816f383ed0},{2045,0x33981e28e01a2},{2045,0x3588c42be6bb2},{2045,0x4091f3f806880},{2045,0x4b72e68e31957},{2045,0x55c576d815726},{2045,0x5cdbb018d299c},{2045,0x61bbcb5b910a2},{2045,0x66e2e957fa3e3},{2045,0x66fce8576b1c7},{2045,0x715541d6746a5},{2045,0x888cd3b23c89a},{2045,0x8a7a1f7cdfedd},{2045,0x93dc1c3883280},{2045,0x9bd03dc0da337},{2045,0xa27fbf3877721},{2045,0xa2d1b9bb524bd},{2045,0xa82370dc56498},{2045,0xc2e8cec84379f},{2045,0xc85f7b23ed918},{2045,0xcb9b803439d3a},{2045,0xd4bd4d5f7db4c},{2045,0xdea68b1f397b4},{2045,0xe963f860b254d},{2045,0xec8ca1b1b4e80},{2045,0xf655acccb3160},
{2046,0x483e4a30bbd6},{2046,0x69672b9f176d},{2046,0x8dcc0c505461},{2046,0x13c3b35289189},{2046,0x15d7133e9152f},{2046,0x170f0378af010},{2046,0x17905cda3bf46},{2046,0x1e9e922d0cc5a},{2046,0x22663bfa6dce9},{2046,0x25a261d39e32e},{2046,0x25e6f9f7a9dac},{2046,0x2b2816f383ed0},{2046,0x33981e28e01a2},{2046,0x4091f3f806880},{2046,0x428c7a947ec17},{2046,0x4b72e68e31957},{2046,0x5e3b0d5e54fdf},{2046,0x63ba1d30b1a11},{2046,0x715541d6746a5},{2046,0x72409614c1e69},{2046,0x76ae37ed071e2},{2046,0x7ec6048e359ed},{2046,0x8478b78dfa0cc},{2046,0x8a7a1f7cdfedd},{2046,0x9a0fdec23c2d6},{2046,0x9a31cdf801351},{2046,0x9bd03dc0da337},{2046,0xa27fbf3877721},{2046,0xa2d1b9bb524bd},{2046,0xac4a0b3ca760a},{2046,0xcb9b803439d3a},{2046,0xd5e4b026235cc},{2046,0xe963f860b254d},{2046,0xec8ca1b1b4e80},{2046,0xf655acccb3160},{2046,0xfa6447762f7c8},
};
struct hard_decimal
{
  int exp;
  uint64_t digits;
};
static const hard_decimal hard_for_double[] = {
{-342,2470328229206232721u},{-342,2470328229206232722u},{-342,2470328229206232723u},{-342,7410984687618698162u},{-342,7410984687618698163u},
{-341,247032822920623273u},{-341,247032822920623274u},{-341,247032822920623275u},{-341,741098468761869815u},{-341,741098468761869816u},{-341,741098468761869817u},{-341,1235164114603116360u},{-341,1235164114603116361u},{-341,1729229760444362904u},{-341,1729229760444362905u},{-341,2223295406285609449u},{-341,2717361052126855993u},{-341,3211426697968102537u},{-341,3705492343809349081u},{-341,5187689281333088714u},{-341,5681754927174335258u},{-341,6175820573015581802u},{-341,8152083156380567979u},{-341,8646148802221814523u},{-341,9140214448063061067u},
{-340,24703282292062328u},{-340,24703282292062329u},{-340,74109846876186981u},{-340,74109846876186982u},{-340,123516411460311636u},{-340,172922976044436290u},{-340,172922976044436291u},{-340,222329540628560945u},{-340,271736105212685599u},{-340,321142669796810254u},{-340,370549234380934908u},{-340,469362363549184217u},{-340,716395186469807489u},{-340,815208315638056798u},{-340,864614880222181452u},{-340,914021444806306107u},{-340,963428009390430761u},{-340,1062241138558680070u},{-340,1309273961479303342u},{-340,1655119913568175923u},{-340,2247998688577671776u},{-340,2840877463587167629u},{-340,5558238515714023622u},{-340,6151117290723519475u},{-340,6743996065733015328u},{-340,9461357117859871321u},
{-339,2470328229206233u},{-339,2470328229206234u},{-339,7410984687618698u},{-339,7410984687618699u},{-339,12351641146031164u},{-339,17292297604443629u},{-339,27173610521268560u},{-339,37054923438093491u},{-339,61758205730155818u},{-339,71639518646980749u},{-339,81520831563805680u},{-339,86461488022218145u},{-339,96342800939043076u},{-339,106224113855868007u},{-339,116105426772692938u},{-339,140808709064755265u},{-339,150690021981580196u},{-339,274206433441891832u},{-339,318672341567604021u},{-339,486654661153627846u},{-339,531120569279340035u},{-339,699102888865363860u},{-339,743568796991076049u},{-339,911551116577099874u},{-339,1079533436163123699u},{-339,1123999344288835888u},{-339,1168465252414548077u},{-339,1336447572000571902u},{-339,2354222802433539783u},{-339,3584446260578243678u},{-339,4814669718722947573u},{-339,6044893176867651468u},{-339,7275116635012355363u},{-339,8505340093157059258u},{-339,9735563551301763153u},
{-338,247032822920624u},{-338,247032822920625u},{-338,247032822920626u},{-338,741098468761869u},{-338,741098468761870u},{-338,741098468761871u},{-338,1235164114603116u},{-338,1235164114603117u},{-338,1729229760444363u},{-338,2717361052126856u},{-338,3705492343809349u},{-338,4693623635491842u},{-338,6175820573015582u},{-338,7163951864698075u},{-338,8152083156380568u},{-338,9140214448063061u},{-338,9634280093904308u},{-338,13586805260634280u},{-338,14574936552316773u},{-338,19021527364887992u},{-338,20009658656570485u},{-338,25444380760824197u},{-338,30879102865077909u},{-338,36313824969331621u},{-338,41748547073585333u},{-338,69910288886536386u},{-338,75345010990790098u},{-338,103506752803741151u},{-338,108941474907994863u},{-338,114376197012248575u},{-338,142537938825199628u},{-338,176134402742404393u},{-338,209730866659609158u},{-338,282358516598272400u},{-338,315954980515477165u},{-338,422179094371345172u},{-338,455775558288549937u},{-338,561999672144417944u},{-338,668223786000285951u},{-338,808044363773358723u},{-338,914268477629226730u},{-338,1003200293880651108u},{-338,1004188425172333601u},{-338,1009623147276587313u},{-338,1054089055402299502u},{-338,1300133747031240281u},{-338,1546178438660181060u},{-338,2284312513547003397u},{-338,2530357205175944176u},{-338,2776401896804884955u},{-338,3760580663320648071u},{-338,4006625354949588850u},{-338,4252670046578529629u},{-338,9313384456930417981u},{-338,9559429148559358760u},{-338,9805473840188299539u},
{-337,123516411460311u},{-337,123516411460312u},{-337,172922976044436u},{-337,222329540628561u},{-337,321142669796810u},{-337,370549234380935u},{-337,518768928133309u},{-337,666988621885683u},{-337,765801751053932u},{-337,815208315638057u},{-337,914021444806306u},{-337,963428009390431u},{-337,1062241138558680u},{-337,1210460832311054u},{-337,1358680526063428u},{-337,1506900219815802u},{-337,2643251205250669u},{-337,2791470899003043u},{-337,4076041578190284u},{-337,5360612257377525u},{-337,6645182936564766u},{-337,6793402630317140u},{-337,8077973309504381u},{-337,9362543988691622u},{-337,10795334361631237u},{-337,12079905040818478u},{-337,14797266092945334u},{-337,21516558876386287u},{-337,28235851659827240u},{-337,34955144443268193u},{-337,41674437226709146u},{-337,48393730010150099u},{-337,84707554979481720u},{-337,91426847762922673u},{-337,98146140546363626u},{-337,100715281904738108u},{-337,100863501598490482u},{-337,101011721292242856u},{-337,154617843866018106u},{-337,217808839969113539u},{-337,337471539391863452u},{-337,400662535494958885u},{-337,646707227123899664u},{-337,709898223226995097u},{-337,829560922649745010u},{-337,892751918752840443u},{-337,955942914855935876u},{-337,1201987606484876655u},{-337,1511223294216912867u},{-337,1757267985845853646u},{-337,2558593056835771416u},{-337,3113873436196748407u},{-337,3915198507186666177u},{-337,4716523578176583947u},{-337,6073129028527478708u},{-337,6874454099517396478u},{-337,8231059549868291239u},{-337,9032384620858209009u},
{-336,106224113855868u},{-336,116105426772693u},{-336,125986739689518u},{-336,180333960732055u},{-336,254443807608242u},{-336,392782188443791u},{-336,466892035319978u},{-336,605230416155527u},{-336,679340263031714u},{-336,891788490743450u},{-336,965898337619637u},{-336,1040008184495824u},{-336,1104236718455186u},{-336,1178346565331373u},{-336,1252456412207560u},{-336,1464904639919296u},{-336,1751462714507219u},{-336,2823585165982724u},{-336,3895707617458229u},{-336,4967830068933734u},{-336,7398633046472667u},{-336,8470755497948172u},{-336,9542877949423677u},{-336,10041884251723336u},{-336,10051765564640161u},{-336,10106112785682698u},{-336,10115994098599523u},{-336,14117925829913620u},{-336,19765096161879068u},{-336,71661751601043605u},{-336,77308921933009053u},{-336,82956092264974501u},{-336,88603262596939949u},{-336,94250432928905397u},{-336,151794258700035382u},{-336,157441429032000830u},{-336,237573936130992607u},{-336,317706443229984384u},{-336,477971457427967938u},{-336,558103964526959715u},{-336,638236471625951492u},{-336,718368978724943269u},{-336,798501485823935046u},{-336,878633992922926823u},{-336,1038899007120910377u},{-336,1119031514219902154u},{-336,1199164021318893931u},{-336,1279296528417885708u},{-336,3196829528461722908u},{-336,3276962035560714685u},{-336,5354760049802535439u},{-336,7512690571143347970u},{-336,9670621092484160501u},
{-335,121293116054026u},{-335,123269378637391u},{-335,125245641220756u},{-335,161312433367167u},{-335,197379225513578u},{-335,231469755076624u},{-335,303603339369446u},{-335,339670131515857u},{-335,375736923662268u},{-335,518027829664547u},{-335,554094621810958u},{-335,732452319959648u},{-335,768519112106059u},{-335,982943602401160u},{-335,1011105344214111u},{-335,1197368092696261u},{-335,1411792582991362u},{-335,1626217073286463u},{-335,1840641563581564u},{-335,3806528768383884u},{-335,4020953258678985u},{-335,4235377748974086u},{-335,4449802239269187u},{-335,7058962914956810u},{-335,7273387405251911u},{-335,9668123590644433u},{-335,9882548080939534u},{-335,10096972571234635u},{-335,12920557737217359u},{-335,15744142903200083u},{-335,18567728069182807u},{-335,27252908057426080u},{-335,30076493223408804u},{-335,32900078389391528u},{-335,47232428709600249u},{-335,50056013875582973u},{-335,61564779029808970u},{-335,64388364195791694u},{-335,78720714516000415u},{-335,81544299681983139u},{-335,95876650002191860u},{-335,110209000322400581u},{-335,113032585488383305u},{-335,127364935808592026u},{-335,176009157101183637u},{-335,207497442907583803u},{-335,256141664200175414u},{-335,287629950006575580u},{-335,367762457105567357u},{-335,479383250010959300u},{-335,559515757109951077u},{-335,751269057114334797u},{-335,943022357118718517u},{-335,1005998928731518849u},{-335,1023154864217710294u},{-335,1406661464226477734u},{-335,1598414764230861454u},{-335,2062053871338620671u},{-335,2253807171343004391u},{-335,3100952878459531048u},{-335,3756345285571673985u},{-335,3948098585576057705u},{-335,4603490992688200642u},{-335,6106029106916870236u},{-335,6953174814033396893u},{-335,8455712928262066487u},{-335,9111105335374209424u},{-335,9302858635378593144u},{-335,9958251042490736081u},
{-334,100270622823481u},{-334,100665875340154u},{-334,101061127856827u},{-334,116130130054985u},{-334,133965899869854u},{-334,151801669684723u},{-334,294883080720348u},{-334,312718850535217u},{-334,509307571015449u},{-334,705896291495681u},{-334,884649242161044u},{-334,902485011975913u},{-334,920320781790782u},{-334,1313498222751246u},{-334,1510086943231478u},{-334,2117688874487043u},{-334,2725290805742608u},{-334,4137083388733970u},{-334,4744685319989535u},{-334,6156477902980897u},{-334,7568270485972259u},{-334,8175872417227824u},{-334,9587665000219186u},{-334,10999457583210548u},{-334,11607059514466113u},{-334,13018852097457475u},{-334,16450039194695764u},{-334,21900620806180980u},{-334,25331807903419269u},{-334,28762995000657558u},{-334,32194182097895847u},{-334,44507137903857641u},{-334,47938325001095930u},{-334,51369512098334219u},{-334,67113655001534302u},{-334,86288985001972674u},{-334,100013733390925830u},{-334,100621335322181395u},{-334,102033127905172757u},{-334,103444920488164119u},{-334,105464315002411046u},{-334,124639645002849418u},{-334,143814975003287790u},{-334,722506062113677239u},{-334,741681392114115611u},{-334,760856722114553983u},{-334,780032052114992355u},{-334,799207382115430727u},{-334,837558042116307471u},{-334,856733372116745843u},{-334,1512125779228888780u},{-334,1531301109229327152u},{-334,1550476439229765524u},{-334,2301745496344100321u},{-334,3072189883458873490u},{-334,3842634270573646659u},{-334,6134792101917527794u},{-334,6905236489032300963u},{-334,7675680876147074132u},{-334,8446125263261847301u},
{-333,100989488338180u},{-333,118825258153049u},{-333,124215514349177u},{-333,147441540360174u},{-333,170667566371171u},{-333,193893592382168u},{-333,292187952622284u},{-333,315413978633281u},{-333,413708338873397u},{-333,535228725124510u},{-333,656749111375623u},{-333,778269497626736u},{-333,998084244117965u},{-333,1119604630369078u},{-333,1241125016620191u},{-333,1362645402871304u},{-333,2190062080618098u},{-333,3017478758364892u},{-333,3966415822362799u},{-333,4793832500109593u},{-333,7397602919601088u},{-333,9173956661345789u},{-333,10001373339092583u},{-333,10122893725343696u},{-333,10244414111594809u},{-333,14381497500328779u},{-333,16985267919820274u},{-333,23969162500547965u},{-333,33556827500767151u},{-333,84098922921354576u},{-333,91082817502082267u},{-333,93686587921573762u},{-333,112861917922012134u},{-333,122449582922231320u},{-333,132037247922450506u},{-333,160800242923108064u},{-333,297631323345668163u},{-333,307218988345887349u},{-333,316806653346106535u},{-333,463225398768885820u},{-333,609644144191665105u},{-333,765650554614663576u},{-333,921656965037662047u},{-333,1077663375460660518u},{-333,1224082120883439803u},{-333,1380088531306438274u},{-333,1994526507998212972u},{-333,2608964484689987670u},{-333,4296272004342313293u},{-333,4910709981034087991u},{-333,7212455477378188312u},{-333,9514200973722288633u},
{-332,102670052632509u},{-332,111421437417295u},{-332,117144693858720u},{-332,125896078643506u},{-332,146093976311142u},{-332,160568617537353u},{-332,175043258763564u},{-332,253139721336044u},{-332,267614362562255u},{-332,360185466360946u},{-332,374660107587157u},{-332,467231211385848u},{-332,574276956410750u},{-332,681322701435652u},{-332,880939550259245u},{-332,987985295284147u},{-332,1002459936510358u},{-332,1016934577736569u},{-332,1031409218962780u},{-332,1095031040309049u},{-332,1508739379182446u},{-332,1615785124207348u},{-332,2029493463080745u},{-332,2136539208105647u},{-332,2657293292003946u},{-332,3178047375902245u},{-332,3698801459800544u},{-332,6409617624316941u},{-332,6930371708215240u},{-332,7451125792113539u},{-332,7971879876011838u},{-332,8492633959910137u},{-332,9013388043808436u},{-332,9534142127706735u},{-332,11724204208324833u},{-332,12244958292223132u},{-332,16518036708434426u},{-332,17038790792332725u},{-332,21832623292442318u},{-332,26626455792551911u},{-332,31941042376559803u},{-332,41528707376778989u},{-332,46322539876888582u},{-332,51116372376998175u},{-332,70812456461334846u},{-332,75606288961444439u},{-332,80400121461554032u},{-332,100096205545890703u},{-332,104890038046000296u},{-332,109683870546109889u},{-332,114477703046219482u},{-332,138967619630665746u},{-332,168251368715221603u},{-332,197535117799777460u},{-332,231612699384442910u},{-332,260896448468998767u},{-332,353541528222775931u},{-332,382825277307331788u},{-332,475470357061108952u},{-332,568115436814886116u},{-332,782689345406996301u},{-332,997263253999106486u},{-332,1026547003083662343u},{-332,1031340835583771936u},{-332,1055830752168218200u},{-332,1060624584668327793u},{-332,1304482242344993835u},{-332,1519056150937104020u},{-332,1826275139282991369u},{-332,2040849047875101554u},{-332,2562641944813099088u},{-332,3084434841751096622u},{-332,3606227738689094156u},{-332,4649813532565089224u},{-332,5171606429503086758u},{-332,7995144822785184613u},{-332,8516937719723182147u},{-332,9038730616661179681u},{-332,9560523513599177215u},
{-331,100851619319708u},{-331,101996270607993u},{-331,103140921896278u},{-331,110950568153526u},{-331,118760214410774u},{-331,172283086923225u},{-331,233615605692924u},{-331,287138478205375u},{-331,348470996975074u},{-331,401993869487525u},{-331,463326388257224u},{-331,578181779539374u},{-331,693037170821524u},{-331,807892562103674u},{-331,869225080873373u},{-331,922747953385824u},{-331,984080472155523u},{-331,1328646646001973u},{-331,1443502037284123u},{-331,2079111512464572u},{-331,2714720987645021u},{-331,4100795329288069u},{-331,4736404804468518u},{-331,6122479146111566u},{-331,7508553487754614u},{-331,8144162962935063u},{-331,9530237304578111u},{-331,10916311646221159u},{-331,11551921121401608u},{-331,12937995463044656u},{-331,16345753621511201u},{-331,19753511779977746u},{-331,23161269938444291u},{-331,26569028096910836u},{-331,62668293498399783u},{-331,66076051656866328u},{-331,102175317058355275u},{-331,105583075216821820u},{-331,108990833375288365u},{-331,151905615093710402u},{-331,194820396812132439u},{-331,369887281844287132u},{-331,412802063562709169u},{-331,673698512031707936u},{-331,716613293750129973u},{-331,891680178782284666u},{-331,934594960500706703u},{-331,977509742219128740u},{-331,1238406190688127507u},{-331,1499302639157126274u},{-331,2064010317813545845u},{-331,2324906766282544612u},{-331,3150510893407962950u},{-331,3976115020533381288u},{-331,5888219723253216731u},{-331,6713823850378635069u},{-331,7539427977504053407u},{-331,9451532680223888850u},
{-330,128293341974677u},{-330,139778881102892u},{-330,151264420231107u},{-330,289090889769687u},{-330,300576428897902u},{-330,312061968026117u},{-330,335033046282547u},{-330,346518585410762u},{-330,358004124538977u},{-330,1005099138847641u},{-330,1016584677975856u},{-330,1028070217104071u},{-330,1039555756232286u},{-330,1698136309669165u},{-330,1709621848797380u},{-330,2379687941362474u},{-330,4424342836442401u},{-330,5105894468135710u},{-330,7832100994908946u},{-330,8513652626602255u},{-330,9195204258295564u},{-330,10546821982553967u},{-330,10558307521682182u},{-330,10569793060810397u},{-330,11239859153375491u},{-330,11921410785068800u},{-330,32356474196739855u},{-330,33038025828433164u},{-330,54154640871797528u},{-330,75952807546855201u},{-330,96387870958526256u},{-330,97069422590219565u},{-330,97750974221912874u},{-330,98432525853606183u},{-330,99114077485299492u},{-330,119549140896970547u},{-330,141347307572028220u},{-330,163145474247085893u},{-330,293252922665738622u},{-330,315051089340796295u},{-330,336849256015853968u},{-330,510553037784622043u},{-330,532351204459679716u},{-330,727853152903505464u},{-330,749651319578563137u},{-330,945153268022388885u},{-330,1140655216466214633u},{-330,1162453383141272306u},{-330,1357955331585098054u},{-330,1575255446703981475u},{-330,2205357625385574065u},{-330,4508466224993061004u},{-330,5138568403674653594u},{-330,5768670582356246184u},{-330,6398772761037838774u},{-330,7028874939719431364u},{-330,7658977118401023954u},
{-329,127317136192521u},{-329,129614244018164u},{-329,131911351843807u},{-329,159476645751523u},{-329,161773753577166u},{-329,164070861402809u},{-329,170962184879738u},{-329,173259292705381u},{-329,175556400531024u},{-329,505995231162285u},{-329,508292338987928u},{-329,510589446813571u},{-329,512886554639214u},{-329,515183662464857u},{-329,850216708747404u},{-329,852513816573047u},{-329,1192141078506880u},{-329,1531768340440713u},{-329,1534065448266356u},{-329,1873692710200189u},{-329,2213319972134022u},{-329,2894871603827331u},{-329,3576423235520640u},{-329,5279153760841091u},{-329,5960705392534400u},{-329,6981884286161542u},{-329,7663435917854851u},{-329,8684614811481993u},{-329,9366166443175302u},{-329,10047718074868611u},{-329,11750448600189062u},{-329,14134730757202822u},{-329,16519012914216582u},{-329,20606025596550793u},{-329,27077320435898764u},{-329,29461602592912524u},{-329,33548615275246735u},{-329,42404192271608466u},{-329,48875487110956437u},{-329,55346781950304408u},{-329,70673653786014110u},{-329,77144948625362081u},{-329,83616243464710052u},{-329,90087538304058023u},{-329,105414410139767725u},{-329,111885704979115696u},{-329,118356999818463667u},{-329,133683871654173369u},{-329,140155166493521340u},{-329,174895922847274955u},{-329,203165384361680599u},{-329,237906140715434214u},{-329,266175602229839858u},{-329,426936794319911991u},{-329,489947012188071250u},{-329,1022298216647750966u},{-329,1057038973001504581u},{-329,1085308434515910225u},{-329,2695304637573645315u},{-329,2758314855441804574u},{-329,2821325073309963833u},{-329,3010355726914441610u},{-329,3073365944782600869u},{-329,3136376162650760128u},{-329,8716016091402528535u},{-329,8779026309270687794u},{-329,8842036527138847053u},{-329,9031067180743324830u},{-329,9094077398611484089u},{-329,9157087616479643348u},
{-328,101560847219370u},{-328,103134353071187u},{-328,105431460896830u},{-328,119214107850688u},{-328,152947123261507u},{-328,186680138672326u},{-328,323909308141245u},{-328,357642323552064u},{-328,391375338962883u},{-328,596070539253440u},{-328,834498754954816u},{-328,868231770365635u},{-328,1072926970656192u},{-328,1311355186357568u},{-328,1549783402058944u},{-328,6352080731497283u},{-328,6590508947198659u},{-328,6828937162900035u},{-328,7067365378601411u},{-328,7305793594302787u},{-328,7544221810004163u},{-328,13300232002248006u},{-328,13538660217949382u},{-328,14015516649352134u},{-328,20963667920102857u},{-328,27911819190853580u},{-328,42046549948056402u},{-328,48994701218807125u},{-328,77025734517511393u},{-328,83973885788262116u},{-328,104818339600514285u},{-328,105056767816215661u},{-328,105295196031917037u},{-328,112004919086966384u},{-328,140035952385670652u},{-328,175015136955125643u},{-328,203046170253829911u},{-328,238025354823284902u},{-328,301035572691444161u},{-328,364045790559603420u},{-328,427056008427762679u},{-328,777086282338013965u},{-328,840096500206173224u},{-328,903106718074332483u},{-328,966116935942491742u},{-328,1442167645589061546u},{-328,1505177863457220805u},{-328,1568188081325380064u},{-328,2107249008840109127u},{-328,2709320154222997449u},{-328,3311391299605885771u},{-328,3913462444988774093u},{-328,4515533590371662415u},{-328,5117604735754550737u},{-328,7525889317286104025u},{-328,8127960462668992347u},{-328,8730031608051880669u},
{-327,103689684741973u},{-327,114039300147783u},{-327,124388915553593u},{-327,134738530959403u},{-327,168471546370222u},{-327,178821161776032u},{-327,233253407998471u},{-327,298035269626720u},{-327,417249377477408u},{-327,536463485328096u},{-327,829323947251911u},{-327,948538055102599u},{-327,1067752162953287u},{-327,1186966270803975u},{-327,1306180378654663u},{-327,1425394486505351u},{-327,1544608594356039u},{-327,2671967811234670u},{-327,2791181919085358u},{-327,4156969351665365u},{-327,7007758324676067u},{-327,8373545757256074u},{-327,10096975513388145u},{-327,12590122162846783u},{-327,16806698568437492u},{-327,26605638812198917u},{-327,36404579055960342u},{-327,46203519299721767u},{-327,56002459543483192u},{-327,89615856680358176u},{-327,95198220518528892u},{-327,99414796924119601u},{-327,109213737167881026u},{-327,119012677411642451u},{-327,191821835523563135u},{-327,264630993635483819u},{-327,337440151747404503u},{-327,565666566326927980u},{-327,638475724438848664u},{-327,866702139018372141u},{-327,939511297130292825u},{-327,1167737711709816302u},{-327,1240546869821736986u},{-327,6586378020155811200u},{-327,6887413592847255361u},{-327,7188449165538699522u},{-327,8693627028995920327u},{-327,8994662601687364488u},{-327,9295698174378808649u},
{-326,147982673272779u},{-326,149017634813360u},{-326,207589727198123u},{-326,208624688738704u},{-326,267196781123467u},{-326,326803835048811u},{-326,386410888974155u},{-326,444982981358918u},{-326,504590035284262u},{-326,564197089209606u},{-326,801590343370401u},{-326,861197397295745u},{-326,1038983597531196u},{-326,1040018559071777u},{-326,1098590651456540u},{-326,1395590959542679u},{-326,1692591267628818u},{-326,1989591575714957u},{-326,2226984829875752u},{-326,2523985137961891u},{-326,3355379008294964u},{-326,3652379316381103u},{-326,4186772878628037u},{-326,4483773186714176u},{-326,5315167057047249u},{-326,6443561235466461u},{-326,7274955105799534u},{-326,8403349284218746u},{-326,9234743154551819u},{-326,9531743462637958u},{-326,10363137332971031u},{-326,12322925381723316u},{-326,14282713430475601u},{-326,18202289527980171u},{-326,20162077576732456u},{-326,22121865625484741u},{-326,24081653674237026u},{-326,52647080535188228u},{-326,54606868583940513u},{-326,56566656632692798u},{-326,58526444681445083u},{-326,60486232730197368u},{-326,91011447639900855u},{-326,92971235688653140u},{-326,94931023737405425u},{-326,96890811786157710u},{-326,131335602793365767u},{-326,133295390842118052u},{-326,169699969898078394u},{-326,206104548954038736u},{-326,244468916058751363u},{-326,357602229324136959u},{-326,432371175484809928u},{-326,470735542589522555u},{-326,545504488750195524u},{-326,658637802015581120u},{-326,846540061441639685u},{-326,959673374707025281u},{-326,1034442320867698250u},{-326,1072806687972410877u},{-326,1109211267028371219u},{-326,1111171055077123504u},{-326,1260708947398469442u},{-326,1561744520089913603u},{-326,1975913406046743360u},{-326,2276948978738187521u},{-326,2577984551429631682u},{-326,2879020124121075843u},{-326,3895260155460793922u},{-326,4854933530167819203u},{-326,5155969102859263364u},{-326,5457004675550707525u},{-326,8392591456304476166u},{-326,8693627028995920327u},{-326,9107795914952750084u},{-326,9182564861113423053u},{-326,9709867060335638406u},{-326,9784636006496311375u},
{-325,103277382828771u},{-325,104312344369352u},{-325,109859065145654u},{-325,157337715977813u},{-325,187141242940485u},{-325,204816366809972u},{-325,234619893772644u},{-325,282098544604803u},{-325,329577195436962u},{-325,501816674896111u},{-325,674056154355260u},{-325,893774284646568u},{-325,941252935478727u},{-325,971056462441399u},{-325,988731586310886u},{-325,1066013764105717u},{-325,1285731894397025u},{-325,1457971373856174u},{-325,1677689504147482u},{-325,3025801812858002u},{-325,3417759422608459u},{-325,6161462690861658u},{-325,6553420300612115u},{-325,6945377910362572u},{-325,7337335520113029u},{-325,7729293129863486u},{-325,8121250739613943u},{-325,9689081178615771u},{-325,10081038788366228u},{-325,10472996398116685u},{-325,10864954007867142u},{-325,27499413096845485u},{-325,27891370706595942u},{-325,28283328316346399u},{-325,46877575454077027u},{-325,47269533063827484u},{-325,65863780201558112u},{-325,84849984949039197u},{-325,103052274477019368u},{-325,103444232086769825u},{-325,103836189696520282u},{-325,104228147306270739u},{-325,160010888719462623u},{-325,197591340604674336u},{-325,235171792489886049u},{-325,329318901007790560u},{-325,366899352893002273u},{-325,658637802015581120u},{-325,696218253900792833u},{-325,940687169959544196u},{-325,941079127569294653u},{-325,1091400935110141505u},{-325,1392436507801585666u},{-325,1618311176722606401u},{-325,2182801870220283010u},{-325,2408676539141303745u},{-325,3010747684524192067u},{-325,3236622353445212802u},{-325,4365603740440566020u},{-325,8355011004419264453u},{-325,8731207480881132040u},
{-324,189740763443879u},{-324,202216846306578u},{-324,324551994314931u},{-324,337028077177630u},{-324,459363225185983u},{-324,594174456057035u},{-324,716509604065388u},{-324,851320834936440u},{-324,986132065807492u},{-324,1108467213815845u},{-324,1243278444686897u},{-324,1378089675557949u},{-324,2553962504809320u},{-324,2945920114559777u},{-324,4648561784432657u},{-324,6351203454305537u},{-324,6743161064055994u},{-324,8445802733928874u},{-324,10148444403801754u},{-324,10540402013552211u},{-324,10932359623302668u},{-324,11067170854173720u},{-324,12243043683425091u},{-324,16040284632921308u},{-324,19837525582417525u},{-324,29134649151282839u},{-324,32931890100779056u},{-324,36729131050275273u},{-324,62066539252061895u},{-324,65863780201558112u},{-324,69661021151054329u},{-324,94147108517904511u},{-324,131727560403116224u},{-324,176902494187320371u},{-324,218280187022028301u},{-324,263455120806232448u},{-324,308630054590436595u},{-324,353804988374640742u},{-324,391385440259852455u},{-324,436560374044056602u},{-324,481735307828260749u},{-324,526910241612464896u},{-324,572085175396669043u},{-324,782770880519704910u},{-324,873120748088113204u},{-324,963470615656521498u},{-324,1053820483224929792u},{-324,1144170350793338086u},{-324,1746241496176226408u},{-324,1926941231313042996u},{-324,2664537178048543759u},{-324,3492482992352452816u},{-324,4410778674224770167u},{-324,5329074356097087518u},{-324,6428069773106221457u},{-324,6984965984704905632u},{-324,8264661136850856159u},{-324,8821557348449540334u},
{-323,101108423153289u},{-323,120585019609880u},{-323,136561359269525u},{-323,152537698929170u},{-323,187990635045406u},{-323,203966974705051u},{-323,255396250480932u},{-323,306825526256813u},{-323,374231141692339u},{-323,425660417468220u},{-323,477089693244101u},{-323,544495308679627u},{-323,595924584455508u},{-323,766188751442796u},{-323,936452918430084u},{-323,1003858533865610u},{-323,1039311469981846u},{-323,1055287809641491u},{-323,1106717085417372u},{-323,3541844699015285u},{-323,3712108866002573u},{-323,3882373032989861u},{-323,4222901366964437u},{-323,4393165533951725u},{-323,4648561784432657u},{-323,7764746065979722u},{-323,8105274399954298u},{-323,8445802733928874u},{-323,8786331067903450u},{-323,8905165959114857u},{-323,9008024510666619u},{-323,9297123568865314u},{-323,9689081178615771u},{-323,9978180236814466u},{-323,11732251182463227u},{-323,12413307850412379u},{-323,16210548799908596u},{-323,16891605467857748u},{-323,20348318083379389u},{-323,24826615700824758u},{-323,29304913318270127u},{-323,32421097599817192u},{-323,37580451885211713u},{-323,40696636166758778u},{-323,49653231401649516u},{-323,61726010918087319u},{-323,75160903770423426u},{-323,78277088051970491u},{-323,81393272333517556u},{-323,99306462803299032u},{-323,102422647084846097u},{-323,123452021836174638u},{-323,156554176103940982u},{-323,177583550855269523u},{-323,246904043672349276u},{-323,267933418423677817u},{-323,313108352207881964u},{-323,382428845024961717u},{-323,424487594527618799u},{-323,493808087344698552u},{-323,535866836847355634u},{-323,626216704415763928u},{-323,737595946735500763u},{-323,1014877918003819775u},{-323,1071733673694711268u},{-323,1098995417009133939u},{-323,1126257160323556610u},{-323,1141054166511791021u},{-323,1252433408831527856u},{-323,2282108333023582042u},{-323,3561803485169532569u},{-323,3784561969809006239u},{-323,4007320454448479909u},{-323,5398394848914167271u},{-323,5843911818193114611u},{-323,7569123939618012478u},{-323,8014640908896959818u},{-323,9128433332094328168u},{-323,9517094545682384015u},{-323,9905755759270439862u},
{-322,100385853386561u},{-322,103581121318490u},{-322,106776389250419u},{-322,127698125240466u},{-322,155010397094371u},{-322,212830208734110u},{-322,297962292227754u},{-322,383094375721398u},{-322,410406647575303u},{-322,538104772815769u},{-322,708368939803057u},{-322,878633106790345u},{-322,902750110712321u},{-322,909140646576179u},{-322,960569922352060u},{-322,966960458215918u},{-322,1134029357271277u},{-322,1416737879606114u},{-322,1757266213580690u},{-322,2210238902902815u},{-322,2833475759212228u},{-322,2891295570851967u},{-322,3514532427161380u},{-322,3797240949496217u},{-322,7029064854322760u},{-322,7594481898992434u},{-322,8217718755301847u},{-322,14058129708645520u},{-322,43928460071585321u},{-322,45174933784204147u},{-322,68074019104460927u},{-322,90349867568408294u},{-322,107639821181880357u},{-322,110132768607118009u},{-322,112625716032355661u},{-322,202975583600763955u},{-322,225251432064711322u},{-322,935585635485789414u},{-322,967833273650687389u},{-322,1680660424497003133u},{-322,1769763818352792601u},{-322,1903418909136476803u},{-322,2081625696848055739u},{-322,3539527636705585202u},{-322,3806837818272953606u},{-322,5621153333553640941u},{-322,5977566908976798813u},{-322,7613675636545907212u},{-322,9427991151826594547u},
{-321,164801712616507u},{-321,175726621358069u},{-321,271783613593275u},{-321,351453242716138u},{-321,442047780580563u},{-321,702906485432276u},{-321,782576114555139u},{-321,884095561161126u},{-321,985615007767113u},{-321,1304293524258565u},{-321,1405812970864552u},{-321,1768191122322252u},{-321,2188389085419691u},{-321,2811625941729104u},{-321,2913145388335091u},{-321,5623251883458208u},{-321,5826290776670182u},{-321,7289923559174473u},{-321,8536397271793299u},{-321,9782870984412125u},{-321,10000030054297590u},{-321,11029344697030951u},{-321,11246503766916416u},{-321,13116214335844655u},{-321,17072794543586598u},{-321,26232428671689310u},{-321,40595116720152791u},{-321,58914384976358215u},{-321,81190233440305582u},{-321,92030659420798050u},{-321,92625655923760481u},{-321,97885190550815214u},{-321,98480187053777645u},{-321,99075183556740076u},{-321,111379242319736835u},{-321,155930939247631569u},{-321,162380466880611164u},{-321,222758484639473670u},{-321,229208012272453265u},{-321,318311406128242733u},{-321,451966496911926935u},{-321,636622812256485466u},{-321,891033938557894680u},{-321,897483466190874275u},{-321,903932993823853870u},{-321,910382521456833465u},{-321,916832049089813060u},{-321,1266796096879991337u},{-321,1273245624512970932u},{-321,2896455296816120141u},{-321,6168672751954336939u},{-321,6894398958066611873u},{-321,7620125164178886807u},
{-320,108713445437310u},{-320,123101443099956u},{-320,137757261751757u},{-320,217426890874620u},{-320,260858704851713u},{-320,478285595726333u},{-320,521717409703426u},{-320,913139377475573u},{-320,956571191452666u},{-320,1000003005429759u},{-320,1043434819406852u},{-320,1086866633383945u},{-320,1956574196882425u},{-320,2000006010859518u},{-320,2623242867168931u},{-320,3913148393764850u},{-320,5246485734337862u},{-320,6536391260933781u},{-320,7826296787529700u},{-320,9203065942079805u},{-320,9550520453896549u},{-320,9798062445042236u},{-320,9897974965713293u},{-320,10492971468675724u},{-320,11782876995271643u},{-320,13072782521867562u},{-320,14362688048463481u},{-320,19696037410755529u},{-320,20985942937351448u},{-320,22275848463947367u},{-320,23565753990543286u},{-320,24855659517139205u},{-320,43261791401298815u},{-320,44551696927894734u},{-320,45841602454490653u},{-320,47131507981086572u},{-320,48421413507682491u},{-320,78784149643022116u},{-320,80074055169618035u},{-320,81363960696213954u},{-320,91683204908981306u},{-320,92973110435577225u},{-320,94263015962173144u},{-320,178206787711578936u},{-320,179496693238174855u},{-320,180786598764770774u},{-320,182076504291366693u},{-320,183366409817962612u},{-320,361573197529541548u},{-320,364153008582733386u},{-320,723146395059083096u},{-320,728306017165466772u},{-320,1075690253902453211u},{-320,1080849876008836887u},{-320,1086009498115220563u},{-320,1091169120221604239u},{-320,1096328742327987915u},{-320,1814315515280687335u},{-320,2172018996230441126u},{-320,2534882099286578593u},{-320,3986334511511128461u},{-320,4712060717623403395u},{-320,7614965542072503131u},{-320,7972669023022256922u},{-320,9424121435246806790u},{-320,9781824916196560581u},
{-319,101305189814663u},{-319,101519446605987u},{-319,101733703397311u},{-319,130509698722603u},{-319,144844132187418u},{-319,173941512699696u},{-319,217373326676789u},{-319,347883025399392u},{-319,391314839376485u},{-319,434746653353578u},{-319,507275847842949u},{-319,594139475797135u},{-319,782629678752970u},{-319,985025801590972u},{-319,999788748638435u},{-319,1014551695685898u},{-319,1376769154550105u},{-319,1565259357505940u},{-319,1753749560461775u},{-319,1840613188415961u},{-319,2029103391371796u},{-319,2942028512056045u},{-319,3130518715011880u},{-319,3681226376831922u},{-319,4971131903427841u},{-319,6261037430023760u},{-319,7362452753663844u},{-319,8652358280259763u},{-319,9942263806855682u},{-319,11232169333451601u},{-319,12522074860047520u},{-319,13811980386643439u},{-319,14724905507327688u},{-319,16014811033923607u},{-319,17304716560519526u},{-319,18594622087115445u},{-319,19884527613711364u},{-319,21174433140307283u},{-319,32029622067847214u},{-319,33319527594443133u},{-319,34609433121039052u},{-319,37189244174230890u},{-319,38479149700826809u},{-319,39769055227422728u},{-319,69218866242078104u},{-319,71798677295269942u},{-319,74378488348461780u},{-319,76958299401653618u},{-319,143597354590539884u},{-319,148756976696923560u},{-319,214106126359213907u},{-319,219265748465597583u},{-319,287194709181079768u},{-319,362863103056137467u},{-319,438531496931195166u},{-319,650057812237217235u},{-319,725726206112274934u},{-319,801394599987332633u},{-319,942412143524680679u},{-319,956165072123134266u},{-319,983689120375750087u},{-319,997442048974203674u},{-319,1300115624474434470u},{-319,1451452412224549868u},{-319,1809155893174303659u},{-319,1884824287049361358u},{-319,2242527767999115149u},{-319,2902904824449099736u},{-319,3260608305398853527u},{-319,3769648574098722716u},{-319,5145432592448214885u},{-319,6521216610797707054u},{-319,7181593667247691641u},{-319,7539297148197445432u},{-319,8915081166546937601u},
{-318,118827895159427u},{-318,156525935750594u},{-318,199957749727687u},{-318,237655790318854u},{-318,275353830910021u},{-318,313051871501188u},{-318,350749912092355u},{-318,475311580637708u},{-318,513009621228875u},{-318,550707661820042u},{-318,626103743002376u},{-318,663801783593543u},{-318,701499824184710u},{-318,799830998910748u},{-318,875227080093082u},{-318,950623161275416u},{-318,1026019242457750u},{-318,1101415323640084u},{-318,1176811404822418u},{-318,1252207486004752u},{-318,1327603567187086u},{-318,1402999648369420u},{-318,2353622809644836u},{-318,2504414972009504u},{-318,3718924417423089u},{-318,5008829944019008u},{-318,6147943308250259u},{-318,7437848834846178u},{-318,8727754361442097u},{-318,10017659888038016u},{-318,10704396765175263u},{-318,11307565414633935u},{-318,12295886616500518u},{-318,14875697669692356u},{-318,17455508722884194u},{-318,29751395339384712u},{-318,40757376429289311u},{-318,45916998535672987u},{-318,59502790678769424u},{-318,70508771768674023u},{-318,94246671669180662u},{-318,95620145423455156u},{-318,96993619177729650u},{-318,98367092932004144u},{-318,99740566686278638u},{-318,119005581357538848u},{-318,130011562447443447u},{-318,141017543537348046u},{-318,249017143804982295u},{-318,260023124894886894u},{-318,509040268699869189u},{-318,520046249789773788u},{-318,985062594130024581u},{-318,996068575219929180u},{-318,1007074556309833779u},{-318,1018080537399738378u},{-318,1029086518489642977u},{-318,1040092499579547576u},{-318,1051098480669452175u},{-318,2047167055889381355u},{-318,2058173036979285954u},{-318,4116346073958571908u},{-318,5470118130128254879u},{-318,5492130092308064077u},{-318,6834896167387842449u},{-318,8232692147917143816u},{-318,9586464204086826787u},
{-317,102601924245775u},{-317,119315569781490u},{-317,123586319301227u},{-317,140299964836942u},{-317,205203848491550u},{-317,280599929673884u},{-317,410407696983100u},{-317,561199859347768u},{-317,804101748430485u},{-317,820815393966200u},{-317,1105686073159821u},{-317,1122399718695536u},{-317,1139113364231251u},{-317,1155827009766966u},{-317,1608203496860970u},{-317,1624917142396685u},{-317,2261513082926787u},{-317,2596524698727553u},{-317,4523026165853574u},{-317,5812931692449493u},{-317,7119550864581127u},{-317,9046052331707148u},{-317,9565652753487245u},{-317,9699361917772965u},{-317,9833071082058685u},{-317,11625863384898986u},{-317,14239101729162254u},{-317,16165603196288275u},{-317,18092104663414296u},{-317,19398723835545930u},{-317,30404704925450529u},{-317,49803428760996459u},{-317,60809409850901058u},{-317,77594895342183720u},{-317,88600876432088319u},{-317,99606857521992918u},{-317,110612838611897517u},{-317,121618819701802116u},{-317,199213715043985836u},{-317,210219696133890435u},{-317,409433411177876271u},{-317,420439392267780870u},{-317,818866822355752542u},{-317,840878784535561740u},{-317,1058804486537956259u},{-317,1080816448717765457u},{-317,1102828410897574655u},{-317,1124840373077383853u},{-317,1375784018349492169u},{-317,1637733644711505084u},{-317,4105340092868667309u},{-317,8210680185737334618u},{-317,9040552989182991759u},{-317,9740547939345491173u},{-317,9782377943909412108u},{-317,9824207948473333043u},
{-316,102137914039478u},{-316,105480643146621u},{-316,108823372253764u},{-316,147449433257525u},{-316,150792162364668u},{-316,154134891471811u},{-316,164163078793240u},{-316,167505807900383u},{-316,170848537007526u},{-316,308269782943622u},{-316,311612512050765u},{-316,314955241157908u},{-316,324983428479337u},{-316,328326157586480u},{-316,331668886693623u},{-316,636595940530102u},{-316,643281398744388u},{-316,649966856958674u},{-316,656652315172960u},{-316,1286562797488776u},{-316,1299933713917348u},{-316,1939872383554593u},{-316,2573125594977552u},{-316,2599867427834696u},{-316,3233120639257655u},{-316,3879744767109186u},{-316,4539739811389289u},{-316,5806246234235207u},{-316,6466241278515310u},{-316,7126236322795413u},{-316,7759489534218372u},{-316,8419484578498475u},{-316,9079479622778578u},{-316,12932482557030620u},{-316,13592477601310723u},{-316,15518979068436744u},{-316,16178974112716847u},{-316,25864965114061240u},{-316,26524960158341343u},{-316,31037958136873488u},{-316,42043939226778087u},{-316,53049920316682686u},{-316,73081897363651575u},{-316,84087878453556174u},{-316,95093859543460773u},{-316,106099840633365372u},{-316,114465841546149559u},{-316,168175756907112348u},{-316,220565682179514931u},{-316,283961588541822113u},{-316,336351513814224696u},{-316,388741439086627279u},{-316,672703027628449392u},{-316,777482878173254558u},{-316,882262728718059724u},{-316,959750656728814868u},{-316,968116657641599055u},{-316,976482658554383242u},{-316,1144212355080072639u},{-316,1353772056169682971u},{-316,1764525457436119448u},{-316,2288424710160145278u},{-316,2699178111426581755u},{-316,3118297513605802419u},{-316,6236595027211604838u},{-316,7066467830657261979u},{-316,8307094035369355597u},
{-315,117959546606020u},{-315,124645004820306u},{-315,131330463034592u},{-315,138015921248878u},{-315,249290009640612u},{-315,262660926069184u},{-315,377277743568061u},{-315,525321852138368u},{-315,646624127851531u},{-315,754555487136122u},{-315,808039152850410u},{-315,875857762849285u},{-315,929341428563573u},{-315,997160038562448u},{-315,1050643704276736u},{-315,1171945979989899u},{-315,1293248255703062u},{-315,1414550531416225u},{-315,1683896915699695u},{-315,2586496511406124u},{-315,3367793831399390u},{-315,5172993022812248u},{-315,5832988067092351u},{-315,6735587662798780u},{-315,7880791809931535u},{-315,9200781898491741u},{-315,10171200104197045u},{-315,10345986045624496u},{-315,10520771987051947u},{-315,11491190192757251u},{-315,11665976134184702u},{-315,14616379472730315u},{-315,20691972091248992u},{-315,29232758945460630u},{-315,35308351563979307u},{-315,58465517890921260u},{-315,86553072689249135u},{-315,98607769427718440u},{-315,99403401691996293u},{-315,132867405343133041u},{-315,157169775817207749u},{-315,354578291669780727u},{-315,459358142214585893u},{-315,539835622285316351u},{-315,910350283516387599u},{-315,918716284429171786u},{-315,1079671244570632702u},{-315,1248992205624877805u},{-315,1409947165766338721u},{-315,2159342489141265404u},{-315,2328663450195510507u},{-315,4657326900391021014u},{-315,5487199703836678155u},{-315,6486393468336580399u},{-315,8146139075227894681u},{-315,9314653800782042028u},{-315,9805884682119208963u},
{-314,121109470141960u},{-314,134673192141735u},{-314,148236914141510u},{-314,161607830570082u},{-314,175171552569857u},{-314,282910106283245u},{-314,336779383139939u},{-314,552256490566715u},{-314,565820212566490u},{-314,673558766279878u},{-314,902599595706429u},{-314,1104512981133430u},{-314,1131640425132980u},{-314,1158767869132530u},{-314,1347117532559756u},{-314,1576158361986307u},{-314,1805199191412858u},{-314,2034240020839409u},{-314,2465194235692961u},{-314,2694235065119512u},{-314,2923275894546063u},{-314,3152316723972614u},{-314,3381357553399165u},{-314,5388470130239024u},{-314,5846551789092126u},{-314,6304633447945228u},{-314,9619714835915142u},{-314,9740245889343493u},{-314,9860776942771844u},{-314,9981307996200195u},{-314,11693103578184252u},{-314,17310614537849827u},{-314,23386207156368504u},{-314,34621229075699654u},{-314,46772414312737008u},{-314,69242458151399308u},{-314,85178827712689829u},{-314,93544828625474016u},{-314,111313524822176945u},{-314,138484916302798616u},{-314,214261048731569703u},{-314,249798441124975561u},{-314,499596882249951122u},{-314,597843058517384509u},{-314,900947588232468857u},{-314,999193764499902244u},{-314,1097439940767335631u},{-314,1195686117034769018u},{-314,2096633705267237875u},{-314,2194879881534671262u},{-314,2293126057802104649u},{-314,2828260332445461629u},{-314,3024752684980328403u},{-314,4389759763069342524u},{-314,7414512448049670927u},{-314,8779519526138685048u},{-314,9906276693072619207u},{-314,9948034251692832395u},{-314,9989791810313045583u},
{-313,102313064913478u},{-313,105025809313433u},{-313,107738553713388u},{-313,113164042513298u},{-313,115876786913253u},{-313,118589531313208u},{-313,210051618626866u},{-313,215477107426776u},{-313,220902596226686u},{-313,226328085026596u},{-313,231753573826506u},{-313,237179062626416u},{-313,441805192453372u},{-313,452656170053192u},{-313,463507147653012u},{-313,676271510679833u},{-313,883610384906744u},{-313,905312340106384u},{-313,971588505535635u},{-313,981269183305124u},{-313,1352543021359666u},{-313,1559881895586577u},{-313,1810624680212768u},{-313,2705086042719332u},{-313,2912424916946243u},{-313,5410172085438664u},{-313,5617510959665575u},{-313,11027683045104239u},{-313,11235021919331150u},{-313,22262704964435389u},{-313,22470043838662300u},{-313,35744731267632769u},{-313,44525409928870778u},{-313,53720766338562609u},{-313,71489462535265538u},{-313,80270141196503547u},{-313,89050819857741556u},{-313,107441532677125218u},{-313,116222211338363227u},{-313,151759603731769085u},{-313,160540282393007094u},{-313,169320961054245103u},{-313,303519207463538170u},{-313,321080564786014188u},{-313,419326741053447575u},{-313,526353595982118971u},{-313,722845948516985745u},{-313,838653482106895150u},{-313,978657216994541725u},{-313,982461762674333870u},{-313,986266308354126015u},{-313,1052707191964237942u},{-313,1561499430623880895u},{-313,1677306964213790300u},{-313,1989606850338566479u},{-313,3122998861247761790u},{-313,3238806394837671195u},{-313,3354613928427580600u},{-313,3979213700677132958u},{-313,6361805256085432985u},{-313,6477612789675342390u},{-313,6593420323265251795u},{-313,7958427401354265916u},{-313,8190042468534084726u},{-313,9877788822402928323u},
{-312,211679265266839u},{-312,220360047346695u},{-312,229040829426551u},{-312,237721611506407u},{-312,440720094693390u},{-312,458081658853102u},{-312,665420533080013u},{-312,682782097239725u},{-312,846717061067356u},{-312,881440189386780u},{-312,916163317706204u},{-312,950886446025628u},{-312,1123502191933115u},{-312,1330841066160026u},{-312,1365564194479450u},{-312,2247004383866230u},{-312,4494008767732460u},{-312,6084273400598533u},{-312,6983075154145025u},{-312,7397752902598847u},{-312,8988017535464920u},{-312,10163604419877171u},{-312,10578282168330993u},{-312,10992959916784815u},{-312,12168546801197066u},{-312,12375885675423977u},{-312,17976035070929840u},{-312,19566299703795913u},{-312,30351920746353817u},{-312,39132599407591826u},{-312,44732748803097689u},{-312,60703841492707634u},{-312,83865348210689515u},{-312,98246176267433387u},{-312,99007085403391816u},{-312,99767994539350245u},{-312,121407682985415268u},{-312,144569189703397149u},{-312,167730696421379030u},{-312,190892203139360911u},{-312,219653859252848655u},{-312,242815365970830536u},{-312,265976872688812417u},{-312,335461392842758060u},{-312,358622899560739941u},{-312,381784406278721822u},{-312,555115252095606715u},{-312,578276758813588596u},{-312,601438265531570477u},{-312,647761278967534239u},{-312,670922785685516120u},{-312,694084292403498001u},{-312,878615437011394620u},{-312,901776943729376501u},{-312,924938450447358382u},{-312,1087068997473231549u},{-312,1110230504191213430u},{-312,1133392010909195311u},{-312,1295522557935068478u},{-312,1318684064653050359u},{-312,1341845571371032240u},{-312,2498399088998209432u},{-312,2544722102434173194u},{-312,2591045115870136956u},{-312,2637368129306100718u},{-312,2683691142742064480u},{-312,5089444204868346388u},{-312,5182090231740273912u},{-312,5274736258612201436u},{-312,7564681787148573939u},{-312,7749973840892428987u},{-312,7935265894636284035u},
{-311,105505583098390u},{-311,119194855288233u},{-311,136556419447945u},{-311,176288037877356u},{-311,224700438386623u},{-311,273112838895890u},{-311,352576075754712u},{-311,449400876773246u},{-311,546225677791780u},{-311,691462879319581u},{-311,705152151509424u},{-311,898801753546492u},{-311,1092451355583560u},{-311,1106140627773403u},{-311,1396615030829005u},{-311,1797603507092984u},{-311,2198591983356963u},{-311,2793230061658010u},{-311,3595207014185968u},{-311,4397183966713926u},{-311,5586460123316020u},{-311,7190414028371936u},{-311,9582655613765967u},{-311,9815373240993298u},{-311,9870130329752670u},{-311,14380828056743872u},{-311,16773069642137903u},{-311,19165311227531934u},{-311,31153897698881775u},{-311,33546139284275806u},{-311,35938380869669837u},{-311,43930771850569731u},{-311,67092278568551612u},{-311,78292577359563338u},{-311,87861543701139462u},{-311,97430510042715586u},{-311,111023050419121343u},{-311,134184557137103224u},{-311,175723087402278924u},{-311,198884594120260805u},{-311,222046100838242686u},{-311,268369114274206448u},{-311,291530620992188329u},{-311,444092201676485372u},{-311,490415215112449134u},{-311,536738228548412896u},{-311,583061241984376658u},{-311,888184403352970744u},{-311,980830430224898268u},{-311,1073476457096825792u},{-311,1166122483968753316u},{-311,1587053178927256807u},{-311,2146952914193651584u},{-311,2614206622588118837u},{-311,3174106357854513614u},{-311,5228413245176237674u},
{-310,109245135558356u},{-310,120396532448157u},{-310,132816866987979u},{-310,146506139177822u},{-310,182498205147267u},{-310,218490271116712u},{-310,279323006165801u},{-310,364996410294534u},{-310,436980542233424u},{-310,558646012331602u},{-310,716303548399225u},{-310,873961084466848u},{-310,980399302764774u},{-310,987013032975267u},{-310,993626763185760u},{-310,1117292024663204u},{-310,1274949560730827u},{-310,1432607096798450u},{-310,2234584049326408u},{-310,2549899121461654u},{-310,3680880418314701u},{-310,4469168098652816u},{-310,6230779539776355u},{-310,6861409684046847u},{-310,8177427061347203u},{-310,8437985044723077u},{-310,8938336197305632u},{-310,9438687349888187u},{-310,10699947638429171u},{-310,12461559079552710u},{-310,14223170520676249u},{-310,18377023547193819u},{-310,21399895276858342u},{-310,24923118159105420u},{-310,39776918824052161u},{-310,49846236318210840u},{-310,52869108047875363u},{-310,69484520153945643u},{-310,79553837648104322u},{-310,89623155142263001u},{-310,105738216095750726u},{-310,115807533589909405u},{-310,159107675296208644u},{-310,195361371238013727u},{-310,215500006226331085u},{-310,318215350592417288u},{-310,354469046534222371u},{-310,467253708394467253u},{-310,672684397126639659u},{-310,708938093068444742u},{-310,934507416788934506u},{-310,970761112730739589u},{-310,1345368794253279318u},{-310,1381622490195084401u},{-310,1905268529519674095u},{-310,1941522225461479178u},{-310,2726991284448363719u},{-310,2763244980390168802u},{-310,3810537059039348190u},{-310,3846790754981153273u},{-310,4370436794305742967u},{-310,6610035735371322075u},{-310,7693581509962306546u},{-310,8740873588611485934u},{-310,8885888372378706266u},{-310,9824419363202470405u},{-310,9969434146969690737u},
{-309,114467056904289u},{-309,143260709679845u},{-309,172054362455401u},{-309,228934113808578u},{-309,286521419359690u},{-309,386591649876201u},{-309,573042838719380u},{-309,673113069235891u},{-309,815666224717801u},{-309,845874985889227u},{-309,915736455234312u},{-309,945945216405738u},{-309,1146085677438760u},{-309,1246155907955271u},{-309,1346226138471782u},{-309,2392241585394031u},{-309,2492311815910542u},{-309,2592382046427053u},{-309,4884553401304573u},{-309,4984623631821084u},{-309,5084693862337595u},{-309,6345954150878579u},{-309,6546094611911601u},{-309,6746235072944623u},{-309,9769106802609146u},{-309,9969247263642168u},{-309,10169387724675190u},{-309,19938494527284336u},{-309,23161506717981881u},{-309,39876989054568672u},{-309,43100001245266217u},{-309,46323013435963762u},{-309,56392330930122441u},{-309,62838355311517531u},{-309,86200002490532434u},{-309,92646026871927524u},{-309,100037966796639053u},{-309,100079496424977439u},{-309,100121026053315825u},{-309,112784661860244882u},{-309,149038357802049965u},{-309,172400004981064868u},{-309,261823019662294847u},{-309,298076715604099930u},{-309,381053705903934819u},{-309,523646039324589694u},{-309,559899735266394777u},{-309,762107411807869638u},{-309,845084402107704527u},{-309,917591793991314693u},{-309,1119799470532789554u},{-309,1322007147074264415u},{-309,1524214823615739276u},{-309,1964883872640494081u},{-309,2644014294148528830u},{-309,3048429647231478552u},{-309,3929767745280988162u},{-309,5288028588297057660u},{-309,6371574362888042131u},{-309,7859535490561976324u},{-309,8134250558987061351u},
{-308,100636273874859u},{-308,114608567743876u},{-308,128580861612893u},{-308,143685242198606u},{-308,229217135487752u},{-308,458434270975504u},{-308,558504501492015u},{-308,816798311434497u},{-308,916868541951008u},{-308,1016938772467519u},{-308,1117009002984030u},{-308,1217079233500541u},{-308,1389275106795529u},{-308,2033877544935038u},{-308,3423152651730567u},{-308,4067755089870076u},{-308,4712357528009585u},{-308,10007023051651100u},{-308,10017182159012065u},{-308,27229261807851957u},{-308,29807671560409993u},{-308,32386081312968029u},{-308,59615343120819986u},{-308,82976990299834889u},{-308,93290629310067033u},{-308,119230686241639972u},{-308,145170743173212911u},{-308,238461372483279944u},{-308,264401429414852883u},{-308,290341486346425822u},{-308,502862801898132827u},{-308,528802858829705766u},{-308,554742915761278705u},{-308,679130421508034749u},{-308,731010535371180627u},{-308,1005725603796265654u},{-308,1057605717659411532u},{-308,1109485831522557410u},{-308,1161365945385703288u},{-308,2115211435318823064u},{-308,2493686731470199847u},{-308,4230422870637646128u},{-308,4608898166789022911u},{-308,4987373462940399694u},{-308,8839321037426669039u},{-308,9217796333578045822u},{-308,9596271629729422605u},
{-307,109359276211278u},{-307,111700900298403u},{-307,114042524385528u},{-307,172195873294988u},{-307,174537497382113u},{-307,223401800596806u},{-307,397939297978919u},{-307,446803601193612u},{-307,495667904408305u},{-307,844742899172531u},{-307,893607202387224u},{-307,942471505601917u},{-307,991335808816610u},{-307,1000702305165110u},{-307,1001494916177575u},{-307,1001941515624838u},{-307,1240340573064325u},{-307,1338069179493711u},{-307,1884943011203834u},{-307,1982671617633220u},{-307,2480681146128650u},{-307,3223012190697545u},{-307,3769886022407668u},{-307,4414488460547177u},{-307,6446024381395090u},{-307,6992898213105213u},{-307,7539772044815336u},{-307,8673017515101775u},{-307,8828976921094354u},{-307,9766765178522021u},{-307,9922724584514600u},{-307,10860512841942267u},{-307,11954260505362513u},{-307,13985796426210426u},{-307,17657953842188708u},{-307,27971592852420852u},{-307,31096876436689011u},{-307,42504263110341401u},{-307,48754830278877719u},{-307,62193752873378022u},{-307,71569603626182499u},{-307,85008526220682802u},{-307,97509660557755438u},{-307,98447448815183105u},{-307,110948583152255741u},{-307,123449717489328377u},{-307,124387505746756044u},{-307,156578129846865301u},{-307,170017052441365604u},{-307,221897166304511482u},{-307,235336088899011785u},{-307,313156259693730602u},{-307,326595182288230905u},{-307,443794332609022964u},{-307,457233255203523267u},{-307,770389514897253869u},{-307,887588665218045928u},{-307,1004787815538837987u},{-307,1014475585103627622u},{-307,1021977891163048958u},{-307,1162303733643130955u},{-307,1396702034284715073u},{-307,1540779029794507738u},{-307,1919254325945884521u},{-307,3081558059589015476u},{-307,3460033355740392259u},{-307,3838508651891769042u},{-307,4739536239704315273u},{-307,5496486832007068839u},{-307,6920066711480784518u},{-307,7677017303783538084u},{-307,9388751174276839093u},{-307,9479072479408630546u},{-307,9569393784540421999u},
{-306,100055746936403u},{-306,100070230516511u},{-306,100084714096619u},{-306,147529559278929u},{-306,149402858548629u},{-306,198267161763322u},{-306,248068114612865u},{-306,298805717097258u},{-306,396534323526644u},{-306,496136229225730u},{-306,644602438139509u},{-306,793068647053288u},{-306,945281454506467u},{-306,992272458451460u},{-306,1289204876279018u},{-306,1586137294106576u},{-306,1734603503020355u},{-306,1984544916902920u},{-306,2578409752558036u},{-306,3719148419923275u},{-306,5156819505116072u},{-306,5406760918998637u},{-306,7438296839846550u},{-306,8875967925039347u},{-306,9375850752804477u},{-306,10313639010232144u},{-306,10813521837997274u},{-306,12251192923190071u},{-306,16814147592651027u},{-306,19689489763036621u},{-306,25940056931572939u},{-306,39378979526073242u},{-306,47067217779802357u},{-306,65319036457646181u},{-306,80695512965104411u},{-306,94134435559604714u},{-306,101760696415231236u},{-306,101884651211436422u},{-306,130638072915292362u},{-306,159453472017250895u},{-306,188268871119209428u},{-306,232460746728626191u},{-306,261276145830584724u},{-306,290091544932543257u},{-306,464921493457252382u},{-306,785765991404712099u},{-306,929842986914504764u},{-306,1250687484861964481u},{-306,1365949081269798613u},{-306,2180530471776469245u},{-306,2501374969723928962u},{-306,3052742660487056943u},{-306,3809693252789810509u},{-306,4361060943552938490u},{-306,5554117630210985905u},{-306,7619386505579621018u},{-306,8170754196342748999u},{-306,8722121887105876980u},
{-305,100725885260906u},{-305,147716889205899u},{-305,149215528621659u},{-305,150714168037419u},{-305,198454491690292u},{-305,248442774466805u},{-305,298431057243318u},{-305,346920700604071u},{-305,396908983380584u},{-305,446897266157097u},{-305,496885548933610u},{-305,643853118431629u},{-305,693841401208142u},{-305,743829683984655u},{-305,793817966761168u},{-305,843806249537681u},{-305,893794532314194u},{-305,1387682802416284u},{-305,1487659367969310u},{-305,1587635933522336u},{-305,2975318735938620u},{-305,4512966386684443u},{-305,5950637471877240u},{-305,7488285122623063u},{-305,9025932773368886u},{-305,10039719365697419u},{-305,10101696763800012u},{-305,10163674161902605u},{-305,10225651560005198u},{-305,10763533555220761u},{-305,25740103800466887u},{-305,31890694403450179u},{-305,38041285006433471u},{-305,63781388806900358u},{-305,76082570012866942u},{-305,86108268441766088u},{-305,86446197305875599u},{-305,94534341821816818u},{-305,94872270685926329u},{-305,111048559717808767u},{-305,127562777613800716u},{-305,152165140025733884u},{-305,296242135535526549u},{-305,436106094355293849u},{-305,872212188710587698u},{-305,1110823526042197181u},{-305,1744424377421175396u},{-305,2221647052084394362u},{-305,3488848754842350792u},{-305,4443294104168788724u},{-305,5949107144258354637u},{-305,8886588208337577448u},{-305,9915178573763924395u},
{-304,100576021319330u},{-304,101774932851938u},{-304,148765936796931u},{-304,198754219573444u},{-304,246344679284741u},{-304,248742502349957u},{-304,297531873593862u},{-304,397508439146888u},{-304,445098898858185u},{-304,497485004699914u},{-304,595063747187724u},{-304,742630772452047u},{-304,795016878293776u},{-304,942583903558099u},{-304,1004561301660692u},{-304,1014152593921556u},{-304,1018582238458965u},{-304,1042560469111125u},{-304,1190127494375448u},{-304,1337694519639771u},{-304,1885167807116198u},{-304,2032734832380521u},{-304,2380254988750896u},{-304,2927728276227323u},{-304,3222862326755969u},{-304,3770335614232396u},{-304,4065469664761042u},{-304,4760509977501792u},{-304,5603117315506865u},{-304,8678412616998511u},{-304,9521019955003584u},{-304,27130184425948387u},{-304,28815399101958533u},{-304,30500613777968679u},{-304,42801794983935263u},{-304,54260368851896774u},{-304,57630798203917066u},{-304,70774586747888723u},{-304,85603589967870526u},{-304,93691734483811745u},{-304,100432593187852329u},{-304,108520737703793548u},{-304,115261596407834132u},{-304,123349740923775351u},{-304,130090599627815935u},{-304,141549173495777446u},{-304,156378176715759249u},{-304,171207179935741052u},{-304,268269343771573089u},{-304,283098346991554892u},{-304,297927350211536695u},{-304,536538687543146178u},{-304,1953377708312821273u},{-304,1983035714752784879u},{-304,2012693721192748485u},{-304,2967139070519186417u},{-304,3966071429505569758u},{-304,4935345782051989493u},{-304,5934278141038372834u},{-304,6933210500024756175u},{-304,7932142859011139516u},{-304,8871759205117595645u},{-304,9870691564103978986u},
{-303,100309729528860u},{-303,101342059073551u},{-303,102374388618242u},{-303,108535528269199u},{-303,169480596827101u},{-303,178039559543274u},{-303,208512093822225u},{-303,217071056538398u},{-303,347520156370375u},{-303,356079119086548u},{-303,417024187644450u},{-303,425583150360623u},{-303,695040312740750u},{-303,703599275456923u},{-303,834048375288900u},{-303,851166300721246u},{-303,868284226153592u},{-303,1120623463101373u},{-303,2241246926202746u},{-303,2510704088582873u},{-303,3083854264207819u},{-303,4482493852405492u},{-303,4751951014785619u},{-303,6437165690795765u},{-303,8964987704810984u},{-303,9234444867191111u},{-303,9503902029571238u},{-303,12604874219211403u},{-303,12874331381591530u},{-303,18468889734382222u},{-303,18738346896762349u},{-303,26018119925563187u},{-303,37207236631144571u},{-303,37476693793524698u},{-303,52036239851126374u},{-303,52305697013506501u},{-303,59585470042307339u},{-303,74414473262289142u},{-303,89243476482270945u},{-303,102994651052732240u},{-303,103533565377492494u},{-303,104072479702252748u},{-303,104611394027013002u},{-303,119170940084614678u},{-303,133999943304596481u},{-303,238341880169229356u},{-303,372880737798586091u},{-303,402538744238549697u},{-303,581564611527851841u},{-303,805077488477099394u},{-303,939616346106456129u},{-303,953367520676917424u},{-303,1163129223055703682u},{-303,1386642100004951235u},{-303,1610154976954198788u},{-303,1774351841023519129u},{-303,2773284200009902470u},{-303,3325190805097790705u},{-303,3548703682047038258u},{-303,4547636041033421599u},{-303,5546568400019804940u},{-303,6545500759006188281u},{-303,7097407364094076516u},{-303,8096339723080459857u},{-303,9095272082066843198u},
{-302,130449099831977u},{-302,139008062548150u},{-302,147567025264323u},{-302,166809675057780u},{-302,278016125096300u},{-302,333619350115560u},{-302,508987987889513u},{-302,556032250192600u},{-302,667238700231120u},{-302,842607338005073u},{-302,1017975975779026u},{-302,1112064500385200u},{-302,1287433138159153u},{-302,1954671838390273u},{-302,2574866276318306u},{-302,3639886514400419u},{-302,5149732552636612u},{-302,7279773028800838u},{-302,7549230191180965u},{-302,10030007942893097u},{-302,10243801814982235u},{-302,10299465105273224u},{-302,11809311143509417u},{-302,17848695296454189u},{-302,32947155678816119u},{-302,35697390592908378u},{-302,68644546271724497u},{-302,71394781185816756u},{-302,86223784405798559u},{-302,88974019319890818u},{-302,91724254233983077u},{-302,134538857629356735u},{-302,137289092543448994u},{-302,140039327457541253u},{-302,142789562371633512u},{-302,277328420000990247u},{-302,444275518984402847u},{-302,554656840001980494u},{-302,665038161019558141u},{-302,772669247123043529u},{-302,888551037968805694u},{-302,1109313680003960988u},{-302,1330076322039116282u},{-302,2218627360007921976u},{-302,2660152644078232564u},{-302,2996797076959150023u},{-302,4437254720015843952u},{-302,5436187079002227293u},{-302,8874509440031687904u},
{-301,106083085463162u},{-301,108644767750841u},{-301,111206450038520u},{-301,113768132326199u},{-301,116329814613878u},{-301,133447740046224u},{-301,136009422333903u},{-301,219851217789361u},{-301,222412900077040u},{-301,266895480092448u},{-301,353298957835585u},{-301,358422322410943u},{-301,444825800154080u},{-301,533790960184896u},{-301,620194437928033u},{-301,889651600308160u},{-301,976055078051297u},{-301,1041965097493002u},{-301,1067581920369792u},{-301,1240388875856066u},{-301,1509846038236193u},{-301,1952110156102594u},{-301,2577427958605985u},{-301,3019692076472386u},{-301,3461956194338787u},{-301,3904220312205188u},{-301,6039384152944772u},{-301,6923912388677574u},{-301,7905090831304229u},{-301,9135232978009579u},{-301,9328533391797285u},{-301,11097589863262889u},{-301,12078768305889544u},{-301,14829003219981803u},{-301,19444944812433519u},{-301,26907771525871347u},{-301,29658006439963606u},{-301,36139654710774779u},{-301,53815543051742694u},{-301,56565777965834953u},{-301,72279309421549558u},{-301,84454727934332955u},{-301,89955197762517473u},{-301,95455667590701991u},{-301,107631086103485388u},{-301,113131555931669906u},{-301,130807444272637821u},{-301,156734037355882513u},{-301,179910395525034946u},{-301,290291716542612593u},{-301,313468074711765026u},{-301,906226926309773609u},{-301,952579642648078475u},{-301,998932358986383341u},{-301,1045285075324688207u},{-301,1440457643056693929u},{-301,1533163075733303661u},{-301,1905159285296156950u},{-301,1997864717972766682u},{-301,2416213643873924837u},{-301,2880915286113387858u},{-301,3995729435945533364u},{-301,4367725645508386653u},{-301,8735451291016773306u},{-301,9200152933256236327u},{-301,9664854575495699348u},
{-300,102147163919157u},{-300,104335253756890u},{-300,141319583134234u},{-300,177930320061632u},{-300,232846425452729u},{-300,282639166268468u},{-300,355860640123264u},{-300,515485591721197u},{-300,711721280246528u},{-300,761514021062267u},{-300,931385701810916u},{-300,934320976548541u},{-300,1030971183442394u},{-300,1227206871967725u},{-300,1865706678359457u},{-300,2061942366884788u},{-300,3731413356718914u},{-300,6481648270811173u},{-300,7462826713437828u},{-300,9428118873428763u},{-300,10213061627530087u},{-300,10998004381631411u},{-300,12963296541622346u},{-300,16890945586866591u},{-300,20426123255060174u},{-300,23961300923253757u},{-300,33781891173733182u},{-300,49887894006498449u},{-300,76599429843844465u},{-300,90740140516618797u},{-300,99775788012996898u},{-300,100950266869411259u},{-300,103706372332978768u},{-300,104880851189393129u},{-300,144163212191310829u},{-300,153198859687688930u},{-300,190515928529615695u},{-300,251009355540694893u},{-300,343714788217304625u},{-300,381031857059231390u},{-300,632041212599926283u},{-300,762063714118462780u},{-300,893260694493413638u},{-300,910157510629755479u},{-300,948649058328096605u},{-300,965545874464438446u},{-300,1059425785997462539u},{-300,1319470789034535533u},{-300,1524127428236925560u},{-300,2118851571994925078u},{-300,3103643220308534087u},{-300,9050884657888529267u},{-300,9980287942367455309u},
{-299,122427159723010u},{-299,123014214670535u},{-299,245441374393545u},{-299,490882748787090u},{-299,981765497574180u},{-299,982352552521705u},{-299,1571646673045223u},{-299,2356589427146547u},{-299,5106237286291281u},{-299,10212474572582562u},{-299,10605533004580749u},{-299,15319885968768893u},{-299,23176358169152433u},{-299,30639771937537786u},{-299,38103185705923139u},{-299,46352716338304866u},{-299,53816130106690219u},{-299,61279543875075572u},{-299,76206371411846278u},{-299,83669785180231631u},{-299,86416497764638740u},{-299,88386486364209875u},{-299,92705432676609732u},{-299,97024378989009589u},{-299,122559087750151144u},{-299,137485915286921850u},{-299,152412742823692556u},{-299,167339570360463262u},{-299,274971830573843700u},{-299,304825485647385112u},{-299,434847987165921609u},{-299,609650971294770224u},{-299,754600300350077427u},{-299,869695974331843218u},{-299,984791648313609009u},{-299,1104206268607774657u},{-299,1219301942589540448u},{-299,1334397616571306239u},{-299,1509200600700154854u},{-299,1624296274681920645u},{-299,2553699559160846687u},{-299,2668795233142612478u},{-299,7311492709224842831u},{-299,9400490626146226497u},
{-298,195766044567311u},{-298,195883455556816u},{-298,196000866546321u},{-298,196470510504341u},{-298,196587921493846u},{-298,196705332483351u},{-298,392236555071652u},{-298,392471377050662u},{-298,392706199029672u},{-298,392941021008682u},{-298,393175842987692u},{-298,393410664966702u},{-298,785412398059344u},{-298,785882042017364u},{-298,1178705652036541u},{-298,1570824796118688u},{-298,1571764084034728u},{-298,1963883228116875u},{-298,2357411304073082u},{-298,2749530448155229u},{-298,3535647312151603u},{-298,3927766456233750u},{-298,4320824888231937u},{-298,5499060896310458u},{-298,6677296904388979u},{-298,7071294624303206u},{-298,8249530632381727u},{-298,8641649776463874u},{-298,9035647496378101u},{-298,9429645216292328u},{-298,11392119512535143u},{-298,13748591528692185u},{-298,16105063544849227u},{-298,17283299552927748u},{-298,17677297272841975u},{-298,22390241305156059u},{-298,27497183057384370u},{-298,32604124809612681u},{-298,44780482610312118u},{-298,49887424362540429u},{-298,54994366114768740u},{-298,60101307866997051u},{-298,75028135403767757u},{-298,85242018908224379u},{-298,89560965220624236u},{-298,99774848725080858u},{-298,109988732229537480u},{-298,134735445550850581u},{-298,150056270807535514u},{-298,174802984128848615u},{-298,219977464459074960u},{-298,244724177780388061u},{-298,324859254936384129u},{-298,439954928918149920u},{-298,464701642239463021u},{-298,649718509872768258u},{-298,674465223194081359u},{-298,904656571157612941u},{-298,929403284478926042u},{-298,1003643424442865345u},{-298,1299437019745536516u},{-298,1554375081030381199u},{-298,1809313142315225882u},{-298,2343935978206228349u},{-298,2598874039491073032u},{-298,2853812100775917715u},{-298,4432933895127612015u},{-298,4687871956412456698u},{-298,4942810017697301381u},{-298,8865867790255224030u},{-298,9120805851540068713u},{-298,9375743912824913396u},
{-297,392400930456959u},{-297,392588788040167u},{-297,392776645623375u},{-297,392964503206583u},{-297,393152360789791u},{-297,393340218372999u},{-297,785177576080334u},{-297,785553291246750u},{-297,785929006413166u},{-297,1178611723244937u},{-297,1571106582493500u},{-297,2357223446489874u},{-297,2749718305738437u},{-297,3142213164987000u},{-297,3535459454568395u},{-297,5499436611476874u},{-297,7070918909136790u},{-297,8249906347548143u},{-297,9819885784542395u},{-297,10998873222953748u},{-297,12177860661365101u},{-297,13747840098359353u},{-297,14141837818273580u},{-297,20818759007496143u},{-297,21997746445907496u},{-297,34960596825769723u},{-297,43995492891814992u},{-297,53030388957860261u},{-297,69921193651539446u},{-297,87990985783629984u},{-297,101344828162075110u},{-297,106060777915720522u},{-297,115095673981765791u},{-297,139842387303078892u},{-297,175981971567259968u},{-297,200728684888573069u},{-297,351963943134519936u},{-297,412850240720014113u},{-297,570762420155183543u},{-297,692535015326171897u},{-297,825700481440028226u},{-297,886586779025522403u},{-297,897979649968390378u},{-297,909372520911258353u},{-297,1141524840310367086u},{-297,1396462901595211769u},{-297,1773173558051044806u},{-297,2028111619335889489u},{-297,2283049680620734172u},{-297,3546347116102089612u},{-297,6327880048349645175u},{-297,6837756170919334541u},{-297,7092694232204179224u},{-297,8854474919312356055u},{-297,9874227164451734787u},
{-296,156734943082934u},{-296,157110658249350u},{-296,157486373415766u},{-296,235572058582421u},{-296,314221316498700u},{-296,471144117164842u},{-296,628442632997400u},{-296,707091890913679u},{-296,942288234329684u},{-296,1021688922578795u},{-296,1256885265994800u},{-296,1336285954243911u},{-296,1414183781827358u},{-296,1963977156908479u},{-296,2513770531989600u},{-296,2828367563654716u},{-296,3927954313816958u},{-296,5106941752228311u},{-296,5577334439060321u},{-296,5656735127309432u},{-296,7855908627633916u},{-296,7935309315883027u},{-296,10055082127958400u},{-296,10134482816207511u},{-296,10213883504456622u},{-296,10293284192705733u},{-296,10372684880954844u},{-296,11313470254618864u},{-296,20268965632415022u},{-296,88229187848377317u},{-296,90507762036950912u},{-296,92786336225524507u},{-296,503040400003968581u},{-296,507597548381115771u},{-296,755699887100239669u},{-296,764814183854534049u},{-296,1006080800007937162u},{-296,1015195096762231542u},{-296,1265576009669929035u},{-296,1770894983862471211u},{-296,2531152019339858070u},{-296,3541789967724942422u},{-296,4302047003202329281u},{-296,5062304038679716140u},{-296,6842313319296481731u},{-296,7083579935449884844u},{-296,8362827390251255449u},{-296,8604094006404658562u},
{-295,109507816816525u},{-295,125688526599480u},{-295,157298515832558u},{-295,204337784515759u},{-295,251377053198960u},{-295,314597031665116u},{-295,408675569031518u},{-295,502754106397920u},{-295,737950449813925u},{-295,817351138063036u},{-295,1005508212795840u},{-295,1034863911030422u},{-295,1084908901044951u},{-295,1178987438411353u},{-295,1555301587876961u},{-295,1634702276126072u},{-295,2011016425591680u},{-295,2090417113840791u},{-295,2654888338039203u},{-295,3110603175753922u},{-295,3566318013468641u},{-295,9252408839012655u},{-295,9708123676727374u},{-295,247646623881409179u},{-295,249469483232268055u},{-295,251292342583126931u},{-295,254938061284844683u},{-295,256760920635703559u},{-295,258583779986562435u},{-295,502584685166253862u},{-295,506230403867971614u},{-295,509876122569689366u},{-295,756611316775669107u},{-295,763902754179104611u},{-295,1005169370332507724u},{-295,1012460807735943228u},{-295,1019752245139378732u},{-295,1027043682542814236u},{-295,1034335119946249740u},{-295,1271956017397935101u},{-295,1513222633551338214u},{-295,1769072124511612335u},{-295,2024921615471886456u},{-295,3793993739983498791u},{-295,4049843230943772912u},{-295,4305692721904047033u},{-295,7843836970927271703u},{-295,8099686461887545824u},{-295,8355535952847819945u},{-295,8611385443808094066u},{-295,8867234934768368187u},{-295,9152250175342384324u},{-295,9349768167075174413u},{-295,9663949157262932566u},{-295,9861467148995722655u},
{-294,100550821279584u},{-294,102284102570511u},{-294,147590089962785u},{-294,201101642559168u},{-294,267557762981915u},{-294,295180179925570u},{-294,402203285118336u},{-294,562737942907485u},{-294,590360359851140u},{-294,804406570236672u},{-294,987363801096695u},{-294,1125475885814970u},{-294,1153098302758625u},{-294,1581190723529689u},{-294,1608813140473344u},{-294,1850481767802531u},{-294,2306196605517250u},{-294,2761911443231969u},{-294,46248177944735859u},{-294,48071037295594735u},{-294,49893896646453611u},{-294,51716755997312487u},{-294,53539615348171363u},{-294,55362474699030239u},{-294,99787793292907222u},{-294,103433511994624974u},{-294,107079230696342726u},{-294,110724949398060478u},{-294,146947400913072519u},{-294,154238838316508023u},{-294,199575586585814444u},{-294,206867023989249948u},{-294,248558053556838617u},{-294,308477676633016046u},{-294,353814424902322467u},{-294,451779358844370813u},{-294,662292101535338513u},{-294,707628849804644934u},{-294,903558717688741626u},{-294,978061215571790063u},{-294,994232214227354468u},{-294,1415257699609289868u},{-294,1671107190569563989u},{-294,1972293429799144531u},{-294,2483992411719692773u},{-294,3342214381139127978u},{-294,5826206792858820751u},{-294,6684428762278255956u},{-294,8054349713618239403u},{-294,9770793652457109813u},
{-293,101498621804035u},{-293,107023105192766u},{-293,112547588581497u},{-293,118072071970228u},{-293,123596555358959u},{-293,129121038747690u},{-293,214046210385532u},{-293,219570693774263u},{-293,225095177162994u},{-293,230619660551725u},{-293,236144143940456u},{-293,241668627329187u},{-293,450190354325988u},{-293,461239321103450u},{-293,472288287880912u},{-293,900380708651976u},{-293,922478642206900u},{-293,944576575761824u},{-293,1356095546366695u},{-293,1378193479921619u},{-293,1400291413476543u},{-293,1844957284413800u},{-293,2300672122128519u},{-293,2756386959843238u},{-293,3190003864003033u},{-293,5968488757401195u},{-293,6380007728006066u},{-293,7791348108260071u},{-293,9614207459118947u},{-293,10025726429723818u},{-293,11025547839372952u},{-293,12348496485407261u},{-293,19228414918237894u},{-293,27931192701927403u},{-293,38456829836475788u},{-293,52628185672741925u},{-293,73679459941838695u},{-293,92319572421032326u},{-293,95553772152145207u},{-293,98787971883258088u},{-293,105256371345483850u},{-293,108490571076596731u},{-293,150593119614790271u},{-293,213746942422080581u},{-293,301186239229580542u},{-293,427493884844161162u},{-293,599138278728048203u},{-293,854987769688322324u},{-293,861456169150548086u},{-293,1026632163572209365u},{-293,1198276557456096406u},{-293,1369920951339983447u},{-293,3254775084331628017u},{-293,3941352659867176181u},{-293,4627930235402724345u},{-293,5314507810938272509u},{-293,6509550168663256034u},{-293,7030951749777142919u},{-293,7882705319734352362u},{-293,9255860470805448690u},
{-292,103296830998152u},{-292,114345797775614u},{-292,184495728441380u},{-292,271219109273339u},{-292,368991456882760u},{-292,542438218546678u},{-292,737982913765520u},{-292,802608361042555u},{-292,1020250989816321u},{-292,1084876437093356u},{-292,1108642724036017u},{-292,1193697751480239u},{-292,1475965827531040u},{-292,2387395502960478u},{-292,3927986777768553u},{-292,4492522929870155u},{-292,6879918432830633u},{-292,8985045859740310u},{-292,9243547648848450u},{-292,9549582011841912u},{-292,9855616374835374u},{-292,10525637134548385u},{-292,13759836865661266u},{-292,14735891988367739u},{-292,17970091719480620u},{-292,21051274269096770u},{-292,29471783976735478u},{-292,42102548538193540u},{-292,58943567953470956u},{-292,80970897345274199u},{-292,84205097076387080u},{-292,87439296807499961u},{-292,90673496538612842u},{-292,117887135906941912u},{-292,121121335638054793u},{-292,205326432714441873u},{-292,410652865428883746u},{-292,514933181651661123u},{-292,717025414634990115u},{-292,821305730857767492u},{-292,925586047080544869u},{-292,1029866363303322246u},{-292,1134146679526099623u},{-292,1746891777938312361u},{-292,1851172094161089738u},{-292,1955452410383867115u},{-292,3598063872099402099u},{-292,3702344188322179476u},{-292,4971219023170498427u},{-292,7404688376644358952u},{-292,9525316781449887346u},{-292,9942438046340996854u},
{-291,105069069030993u},{-291,107152960999146u},{-291,112573559742773u},{-291,121746403842290u},{-291,134671493297697u},{-291,147596582753104u},{-291,160521672208511u},{-291,173446761663918u},{-291,186371851119325u},{-291,269342986595394u},{-291,295193165506208u},{-291,321043344417022u},{-291,346893523327836u},{-291,590386331012416u},{-291,642086688834044u},{-291,846804228152403u},{-291,898504585974031u},{-291,924354764884845u},{-291,973971230738320u},{-291,978139014674626u},{-291,1180772662024832u},{-291,1540591274808075u},{-291,1797009171948062u},{-291,1848709529769690u},{-291,2105127426909677u},{-291,2361545324049664u},{-291,3337600446756137u},{-291,3594018343896124u},{-291,3953836956679367u},{-291,4210254853819354u},{-291,4466672750959341u},{-291,6931618790652261u},{-291,7188036687792248u},{-291,7907673913358734u},{-291,8420509707638708u},{-291,8933345501918682u},{-291,10629037850191641u},{-291,11141873644471615u},{-291,11654709438751589u},{-291,13863237581304522u},{-291,14376073375584496u},{-291,16841019415277416u},{-291,22283747288943230u},{-291,25517947020056111u},{-291,33682038830554832u},{-291,42358966435333527u},{-291,53244422182665155u},{-291,67364077661109664u},{-291,76041005265888359u},{-291,84717932870667054u},{-291,102071788080224444u},{-291,106488844365330310u},{-291,110748715685003139u},{-291,115165771970109005u},{-291,134728155322219328u},{-291,143405082926998023u},{-291,152082010531776718u},{-291,286810165853996046u},{-291,391090482076773423u},{-291,573620331707992092u},{-291,677900647930769469u},{-291,782180964153546846u},{-291,886461280376324223u},{-291,938522846004996393u},{-291,938680030970429430u},{-291,1077668057612321587u},{-291,1355801295861538938u},{-291,1564361928307093692u},{-291,1842495166556311043u},{-291,2433469353473860525u},{-291,3128723856614187384u},{-291,3406857094863404735u},{-291,4588805468698503699u},{-291,4866938706947721050u},{-291,6535580951477592119u},{-291,6813714189726809470u},{-291,7508968692867136329u},{-291,8065235169365571031u},{-291,9177610937397007398u},{-291,9733877413895442100u},
{-290,149097480895460u},{-290,159020774066155u},{-290,184870952976969u},{-290,308118254961615u},{-290,318041548132310u},{-290,369741905953938u},{-290,379665199124633u},{-290,616236509923230u},{-290,626159803093925u},{-290,739483811907876u},{-290,759330398249266u},{-290,956208536365083u},{-290,976055122706473u},{-290,995901709047863u},{-290,1232473019846460u},{-290,1252319606187850u},{-290,1478967623815752u},{-290,2228374728894323u},{-290,4456749457788646u},{-290,7178113394621553u},{-290,8913498915577292u},{-290,10175741814935837u},{-290,10648884436533031u},{-290,11122027058130225u},{-290,16091612310198845u},{-290,17826997831154584u},{-290,19562383352110323u},{-290,40860152225176385u},{-290,42595537746132124u},{-290,44330923267087863u},{-290,88661846534175726u},{-290,92132617576087204u},{-290,93710818131609906u},{-290,93868003097042943u},{-290,94025188062475980u},{-290,100809545180865899u},{-290,187736006194085886u},{-290,201619090361731798u},{-290,285074780333040307u},{-290,298957864500686219u},{-290,486693870694772105u},{-290,681371418972680947u},{-290,750944024776343544u},{-290,806476361446927192u},{-290,862165883082943877u},{-290,973387741389544210u},{-290,1084609599696144543u},{-290,1251520979638761561u},{-290,1362742837945361894u},{-290,1473964696251962227u},{-290,1946775482779088420u},{-290,2725485675890723788u},{-290,3893550965558176840u},{-290,5450971351781447576u},{-290,6897169879698117979u},{-290,7787101931116353680u},{-290,8677033982534589381u},
{-289,111339350179812u},{-289,113324008813951u},{-289,115308667448090u},{-289,125231960618785u},{-289,127216619252924u},{-289,129201277887063u},{-289,242525286701014u},{-289,246494603969292u},{-289,250463921237570u},{-289,254433238505848u},{-289,492989207938584u},{-289,500927842475140u},{-289,733529836005459u},{-289,749407105078571u},{-289,985978415877168u},{-289,1001855684950280u},{-289,1017732954023392u},{-289,2224405411626045u},{-289,3218322462039769u},{-289,4701259403123799u},{-289,6436644924079538u},{-289,8172030445035277u},{-289,9245333840814561u},{-289,9402518806247598u},{-289,9559703771680635u},{-289,9970925042283464u},{-289,12147698646690173u},{-289,12873289848159076u},{-289,16344060890070554u},{-289,21550217452937771u},{-289,32688121780141108u},{-289,43100434905875542u},{-289,54238339233078879u},{-289,75062965484547747u},{-289,86200869811751084u},{-289,97338774138954421u},{-289,108476678466157758u},{-289,147380751128652919u},{-289,194677548277908842u},{-289,389355096555817684u},{-289,522852763516824691u},{-289,645212526150628361u},{-289,778710193111635368u},{-289,912207860072642375u},{-289,1001153909724836034u},{-289,1045705527033649382u},{-289,1134651576685843041u},{-289,1179203193994656389u},{-289,1290425052301256722u},{-289,1557420386223270736u},{-289,1824415720145284750u},{-289,3114840772446541472u},{-289,4271768157786791187u},{-289,6229681544893082944u},{-289,9522571601609444771u},{-289,9611832021192504504u},{-289,9878355800218219407u},{-289,9967616219801279140u},
{-288,100185568495028u},{-288,104631204157345u},{-288,108124203031584u},{-288,112569838693901u},{-288,140355059571847u},{-288,156232328644959u},{-288,200371136990056u},{-288,236571310798597u},{-288,356603465635015u},{-288,400742273980112u},{-288,444881082325209u},{-288,801484547960224u},{-288,845623356305321u},{-288,889762164650418u},{-288,946285243194388u},{-288,965655511141739u},{-288,1142210744522127u},{-288,1230488361212321u},{-288,1691246712610642u},{-288,1779524329300836u},{-288,2284421489044254u},{-288,2833457457132769u},{-288,3559048658601672u},{-288,4019807009999993u},{-288,7490578051911471u},{-288,8039614019999986u},{-288,8588649988088501u},{-288,23922916558672219u},{-288,25020988494849249u},{-288,36707928790141101u},{-288,47845833117344438u},{-288,50041976989698498u},{-288,60081809380724805u},{-288,73415857580282202u},{-288,100083953979396996u},{-288,109025714434246273u},{-288,146831715160564404u},{-288,182441572014528475u},{-288,218051428868492546u},{-288,329273287175092879u},{-288,364883144029056950u},{-288,400493000883021021u},{-288,498380810990063957u},{-288,658546574350185758u},{-288,729766288058113900u},{-288,961308950091596880u},{-288,979035286035862397u},{-288,996761621980127914u},{-288,1156927385340249715u},{-288,1459532576116227800u},{-288,1619698339476349601u},{-288,2153689007320377629u},{-288,2919065152232455600u},{-288,3079230915592577401u},{-288,4307378014640755258u},{-288,5998296067825033001u},{-288,6158461831185154802u},{-288,8454590265921388715u},{-288,8614756029281510516u},{-288,8774921792641632317u},
{-287,121111809326497u},{-287,142641386254006u},{-287,263753195580503u},{-287,285282772508012u},{-287,417699197543303u},{-287,527506391161006u},{-287,637313584778709u},{-287,811709509178939u},{-287,835398395086606u},{-287,921516702796642u},{-287,945205588704309u},{-287,1055012782322012u},{-287,1164819975939715u},{-287,1274627169557418u},{-287,10039832391026307u},{-287,10479061165497119u},{-287,10918289939967931u},{-287,12016361876144961u},{-287,12894819425086585u},{-287,23593494977819110u},{-287,24032723752289922u},{-287,36488314402905695u},{-287,48065447504579844u},{-287,72976628805811390u},{-287,96130895009159688u},{-287,99487540239493147u},{-287,99801910170359221u},{-287,145953257611622780u},{-287,231385477068049943u},{-287,291906515223245560u},{-287,352427553378441177u},{-287,462770954136099886u},{-287,583813030446491120u},{-287,704855106756882354u},{-287,765376144912077971u},{-287,843623519011539105u},{-287,847294534172738638u},{-287,925541908272199772u},{-287,1167626060892982240u},{-287,1327791824253104041u},{-287,1409710213513764708u},{-287,1690918053184277743u},{-287,2335252121785964480u},{-287,2495417885146086281u},{-287,3381836106368555486u},{-287,6119338144135424235u},{-287,6763672212737110972u},
{-286,131336770545212u},{-286,144686378497749u},{-286,206264779282869u},{-286,232963995187943u},{-286,356120796758183u},{-286,465927990375886u},{-286,575735183993589u},{-286,712241593516366u},{-286,768650355323921u},{-286,931855980751772u},{-286,988264742559327u},{-286,1044673504366882u},{-286,1095061606179623u},{-286,1151470367987178u},{-286,1920120723311099u},{-286,2359349497781911u},{-286,2578963885017317u},{-286,4718698995563822u},{-286,5157927770034634u},{-286,7297662880581139u},{-286,9437397991127644u},{-286,9550215514742754u},{-286,9707400480175791u},{-286,9864585445608828u},{-286,10315855540069268u},{-286,12455590650615773u},{-286,14595325761162278u},{-286,16735060871708783u},{-286,18874795982255288u},{-286,22771446190685041u},{-286,24911181301231546u},{-286,27050916411778051u},{-286,29190651522324556u},{-286,31330386632871061u},{-286,33470121743417566u},{-286,54101832823556102u},{-286,58381303044649112u},{-286,62660773265742122u},{-286,77638919039567657u},{-286,91085784762740164u},{-286,99644725204926184u},{-286,108203665647112204u},{-286,116762606089298224u},{-286,125321546531484244u},{-286,168724703802307821u},{-286,233525212178596448u},{-286,402249915980904269u},{-286,467050424357192896u},{-286,804499831961808538u},{-286,869300340338097165u},{-286,934100848714385792u},{-286,998901357090674419u},{-286,1063701865466963046u},{-286,1128502373843251673u},{-286,1223867628827084847u},{-286,1868201697428771584u},{-286,2382934749277881067u},{-286,2447735257654169694u},{-286,4765869498555762134u},{-286,9790941030616678776u},{-286,9931555092852854629u},
{-285,102661152438244u},{-285,105671482435651u},{-285,113942904799755u},{-285,116953234797162u},{-285,121088945979214u},{-285,132370698340725u},{-285,242177891958428u},{-285,844612291857091u},{-285,867175796580113u},{-285,889739301303135u},{-285,946907630738807u},{-285,968711567833712u},{-285,990515504928617u},{-285,1261277561604881u},{-285,1306404571050925u},{-285,1689224583714182u},{-285,1734351593160226u},{-285,8130993420076719u},{-285,8986887464295321u},{-285,9842781508513923u},{-285,10698675552732525u},{-285,49394415580353791u},{-285,52817991757228199u},{-285,56241567934102607u},{-285,59665144110977015u},{-285,61376932199414219u},{-285,68224084553163035u},{-285,105635983514456398u},{-285,112483135868205214u},{-285,119330288221954030u},{-285,122753864398828438u},{-285,173860068067619433u},{-285,224966271736410428u},{-285,238660576443908060u},{-285,296613932466447871u},{-285,347720136135238866u},{-285,398826339804029861u},{-285,514733051849109483u},{-285,695440272270477732u},{-285,876147492691845981u},{-285,982030915190627504u},{-285,996714975835425636u},{-285,998406479122024169u},{-285,1107960916782005225u},{-285,1390880544540955464u},{-285,1752294985383691962u},{-285,2215921833564010450u},{-285,2860255902165697187u},{-285,3426095157683597665u},{-285,4353348854044234641u},{-285,4431843667128020900u},{-285,5642016991247608115u},{-285,6930685128450981589u},{-285,8706697708088469282u},{-285,8863687334256041800u},{-285,9916871032208056497u},
{-284,105896558672580u},{-284,155384355537605u},{-284,177947860260627u},{-284,261280914210185u},{-284,355895720521254u},{-284,522561828420370u},{-284,711791441042508u},{-284,765640025326514u},{-284,946148063110690u},{-284,995635859975715u},{-284,1045123656840740u},{-284,1094611453705765u},{-284,1423582882085016u},{-284,1473070678950041u},{-284,2139735110546505u},{-284,2946141357900082u},{-284,2995629154765107u},{-284,4229982424227985u},{-284,4279470221093010u},{-284,5941770512665189u},{-284,5991258309530214u},{-284,8459964848455970u},{-284,8509452645320995u},{-284,8558940442186020u},{-284,11784565431600328u},{-284,11834053228465353u},{-284,11883541025330378u},{-284,11933028822195403u},{-284,11982516619060428u},{-284,12032004415925453u},{-284,13644816910632607u},{-284,17018905290641990u},{-284,23866057644390806u},{-284,27289633821265214u},{-284,37510874555023413u},{-284,47732115288781612u},{-284,54579267642530428u},{-284,64800508376288627u},{-284,75021749110046826u},{-284,97749587426542057u},{-284,98541392176382457u},{-284,99333196926222857u},{-284,170485979687610050u},{-284,190928461155126448u},{-284,221592183356401045u},{-284,262477146291433841u},{-284,443184366712802090u},{-284,685219031536719533u},{-284,807873920341817921u},{-284,886368733425604180u},{-284,964863546509390439u},{-284,1128403398249521623u},{-284,1370438063073439066u},{-284,1448932876157225325u},{-284,1772737466851208360u},{-284,2014772131675125803u},{-284,2256806796499043246u},{-284,2498841461322960689u},{-284,2740876126146878132u},{-284,3545474933702416720u},{-284,3787509598526334163u},{-284,4029544263350251606u},{-284,4513613592998086492u},{-284,4755648257822003935u},{-284,4997682922645921378u},{-284,7090949867404833440u},{-284,7575019197052668326u},{-284,8059088526700503212u},{-284,9027227185996172984u},{-284,9511296515644007870u},{-284,9995365845291842756u},
{-283,104512365684074u},{-283,114409925057079u},{-283,124307484430084u},{-283,134205043803089u},{-283,189229612622138u},{-283,199127171995143u},{-283,209024731368148u},{-283,218922290741153u},{-283,228819850114158u},{-283,238717409487163u},{-283,398254343990286u},{-283,408151903363291u},{-283,418049462736296u},{-283,427947022109301u},{-283,437844581482306u},{-283,447742140855311u},{-283,796508687980572u},{-283,806406247353577u},{-283,816303806726582u},{-283,855894044218602u},{-283,865791603591607u},{-283,875689162964612u},{-283,1682095410318189u},{-283,1691992969691194u},{-283,1701890529064199u},{-283,1711788088437204u},{-283,1721685647810209u},{-283,1731583207183214u},{-283,3383985939382388u},{-283,3403781058128398u},{-283,3423576176874408u},{-283,6807562116256796u},{-283,6847152353748816u},{-283,9706567646361939u},{-283,9785748121345979u},{-283,9864928596330019u},{-283,13615124232513592u},{-283,17048597968761005u},{-283,30663722201274597u},{-283,34097195937522010u},{-283,44318436671280209u},{-283,68194391875044020u},{-283,88636873342560418u},{-283,105645881073829403u},{-283,136388783750088040u},{-283,153397791481357025u},{-283,177273746685120836u},{-283,289786575231445065u},{-283,306795582962714050u},{-283,354547493370241672u},{-283,579573150462890130u},{-283,596582158194159115u},{-283,709094986740483344u},{-283,951129651564400787u},{-283,1159146300925780260u},{-283,1193164316388318230u},{-283,1227182331850856200u},{-283,1418189973480966688u},{-283,1902259303128801574u},{-283,2386328632776636460u},{-283,2836379946961933376u},{-283,3804518606257603148u},{-283,4980673914914652393u},{-283,7609037212515206296u},{-283,8301123191524420655u},{-283,9945713603484698174u},{-283,9961347829829304786u},{-283,9976982056173911398u},
{-282,969960818554490u},{-282,977878866052894u},{-282,985796913551298u},{-282,3362211308761777u},{-282,3378047403758585u},{-282,3393883498755393u},{-282,3409719593752201u},{-282,3425555688749009u},{-282,3441391783745817u},{-282,6787766997510786u},{-282,6819439187504402u},{-282,6851111377498018u},{-282,10237076828755007u},{-282,13638878375008804u},{-282,17072352111256217u},{-282,20474153657510014u},{-282,23875955203763811u},{-282,30679558296271405u},{-282,37546505768766231u},{-282,40948307315020028u},{-282,44350108861273825u},{-282,61359116592542810u},{-282,98905622361309041u},{-282,102307423907562838u},{-282,105709225453816635u},{-282,109111027000070432u},{-282,119316431638831823u},{-282,122718233185085620u},{-282,218222054000140864u},{-282,225025657092648458u},{-282,231829260185156052u},{-282,238632863277663646u},{-282,245436466370171240u},{-282,255641871008932631u},{-282,463658520370312104u},{-282,477265726555327292u},{-282,490872932740342480u},{-282,705693185194229547u},{-282,732907597564259923u},{-282,927317040740624208u},{-282,954531453110654584u},{-282,999116144518820606u},{-282,999261628251851801u},{-282,999407111984882996u},{-282,1411386370388459094u},{-282,1660224638304884131u},{-282,1909062906221309168u},{-282,3071611008693343225u},{-282,3320449276609768262u},{-282,3569287544526193299u},{-282,3818125812442618336u},{-282,6392060285303111487u},{-282,6640898553219536524u},{-282,6889736821135961561u},{-282,7138575089052386598u},{-282,8273908779154390279u},{-282,8771585314987240353u},{-282,9269261850820090427u},{-282,9766938386652940501u},
{-281,643937290758101u},{-281,659773385754909u},{-281,675609480751717u},{-281,691445575748525u},{-281,707281670745333u},{-281,778544098230969u},{-281,810216288224585u},{-281,1287874581516202u},{-281,1319546771509818u},{-281,1351218961503434u},{-281,1382891151497050u},{-281,1414563341490666u},{-281,2034746489753555u},{-281,2702437923006868u},{-281,4069492979507110u},{-281,4800528792747655u},{-281,6135911659254281u},{-281,8138985959014220u},{-281,8870021772254765u},{-281,9601057585495310u},{-281,11540787505268017u},{-281,12271823318508562u},{-281,14338241998255733u},{-281,17740043544509530u},{-281,21141845090763327u},{-281,24543646637017124u},{-281,35480087089019060u},{-281,42283690181526654u},{-281,49087293274034248u},{-281,59292697912795639u},{-281,84567380363053308u},{-281,98174586548068496u},{-281,99246290121076686u},{-281,99275386867682925u},{-281,99304483614289164u},{-281,130252872090833759u},{-281,157467284460864135u},{-281,196349173096136992u},{-281,221623855546394661u},{-281,392698346192273984u},{-281,536558424468122931u},{-281,614322201738668645u},{-281,824278581019820825u},{-281,886495422185578644u},{-281,917589294395154434u},{-281,979806135560912253u},{-281,1228644403477337290u},{-281,1477482671393762327u},{-281,2052922984497158115u},{-281,2457288806954674580u},{-281,2954965342787524654u},{-281,8118381224613298851u},{-281,9922465941194031929u},
{-280,106616925156089u},{-280,122453020152897u},{-280,138289115149705u},{-280,154125210146513u},{-280,162043257644917u},{-280,244906040305794u},{-280,276578230299410u},{-280,406949297950711u},{-280,553156460598820u},{-280,667691433253313u},{-280,813898595901422u},{-280,960105758549531u},{-280,1106312921197640u},{-280,1125831323871285u},{-280,1335382866506626u},{-280,1481590029154735u},{-280,1627797191802844u},{-280,1774004354450953u},{-280,1920211517099062u},{-280,2066418679747171u},{-280,3255594383605688u},{-280,3548008708901906u},{-280,3840423034198124u},{-280,7096017417803812u},{-280,9942087060071412u},{-280,9971183806677651u},{-280,14192034835607624u},{-280,17301422056565203u},{-280,28384069671215248u},{-280,31493456892172827u},{-280,59877526563388075u},{-280,62986913784345654u},{-280,116645665905818571u},{-280,119755053126776150u},{-280,122864440347733729u},{-280,125973827568691308u},{-280,129083214789648887u},{-280,164855716203964165u},{-280,245728880695467458u},{-280,329711432407928330u},{-280,410584596899431623u},{-280,491457761390934916u},{-280,572330925882438209u},{-280,659422864815856660u},{-280,821169193798863246u},{-280,982915522781869832u},{-280,1076226236157203441u},{-280,1144661851764876418u},{-280,1237972565140210027u},{-280,1642338387597726492u},{-280,1965831045563739664u},{-280,2544380745888093031u},{-280,4671958120434839281u},
{-279,102823931050306u},{-279,106727611585035u},{-279,110631292119764u},{-279,114534972654493u},{-279,118438653189222u},{-279,122342333723951u},{-279,217358903704799u},{-279,221262584239528u},{-279,225166264774257u},{-279,229069945308986u},{-279,288510644761489u},{-279,296318005830947u},{-279,442525168479056u},{-279,450332529548514u},{-279,592636011661894u},{-279,746650535379461u},{-279,885050336958112u},{-279,993629962313610u},{-279,995762659985203u},{-279,997895357656796u},{-279,1031257499606221u},{-279,1185272023323788u},{-279,1770100673916224u},{-279,1924115197633791u},{-279,2062514999212442u},{-279,2216529522930009u},{-279,2370544046647576u},{-279,3694215871550015u},{-279,3848230395267582u},{-279,4433059045860018u},{-279,4587073569577585u},{-279,7388431743100030u},{-279,7542446266817597u},{-279,7696460790535164u},{-279,8250059996849768u},{-279,8558089044284902u},{-279,8866118091720036u},{-279,9174147139155170u},{-279,9482176186590304u},{-279,9790205234025438u},{-279,11975505312677615u},{-279,15084892533635194u},{-279,20841623404397651u},{-279,23951010625355230u},{-279,27060397846312809u},{-279,30169785067270388u},{-279,32971143240792833u},{-279,47902021250710460u},{-279,54120795692625618u},{-279,62832899260628087u},{-279,65942286481585666u},{-279,87091938933418451u},{-279,95804042501420920u},{-279,104516146069423389u},{-279,108241591385251236u},{-279,116953694953253705u},{-279,125665798521256174u},{-279,131884572963171332u},{-279,182895981434839371u},{-279,191608085002841840u},{-279,233907389906507410u},{-279,242619493474509879u},{-279,263769145926342664u},{-279,365791962869678742u},{-279,374504066437681211u},{-279,476526883381017289u},{-279,527538291852685328u},{-279,638273212364023875u},{-279,749008132875362422u},{-279,953053766762034578u},{-279,1000281536424662292u},{-279,1005326388170049392u},{-279,1011516065865358311u},{-279,1055076583705370656u},{-279,1165811504216709203u},{-279,1276546424728047750u},{-279,1906107533524069156u},{-279,2016842454035407703u},{-279,2331623008433418406u},{-279,2553092849456095500u},{-279,3071919037740778359u},{-279,3293388878763455453u},{-279,4033684908070815406u},{-279,4663246016866836812u},{-279,7327073786834270859u},{-279,8067369816141630812u},{-279,9029135686471667859u},{-279,9326492033733673624u},
{-278,121650146760162u},{-278,146207162648109u},{-278,267857309408271u},{-278,292414325296218u},{-278,535714618816542u},{-278,738843174310003u},{-278,819186650363729u},{-278,861628253749738u},{-278,917414713915517u},{-278,1477686348620006u},{-278,1834829427831034u},{-278,2395101062535523u},{-278,2955372697240012u},{-278,3669658855662068u},{-278,4790202125071046u},{-278,5910745394480024u},{-278,7339317711324136u},{-278,7591560298593491u},{-278,9580404250142092u},{-278,11569248201690693u},{-278,11821490788960048u},{-278,14930878009917627u},{-278,19160808500284184u},{-278,23390738990650741u},{-278,29861756019835254u},{-278,38321617000568368u},{-278,46781477981301482u},{-278,51011408471668039u},{-278,76643234001136736u},{-278,93562955962602964u},{-278,100257118832450593u},{-278,100761604006989303u},{-278,101266089181528013u},{-278,102022816943336078u},{-278,127654642472804775u},{-278,153286468002273472u},{-278,187125911925205928u},{-278,255309284945609550u},{-278,314780554398010703u},{-278,510618569891219100u},{-278,570089839343620253u},{-278,842823331425234741u},{-278,902294600877635894u},{-278,961765870330037047u},{-278,1021237139782438200u},{-278,1080708409234839353u},{-278,2042474279564876400u},{-278,2101945549017277553u},{-278,2161416818469678706u},{-278,4203891098034555106u},{-278,4263362367486956259u},{-278,8348310926616709059u},{-278,8407782196069110212u},{-278,8467253465521511365u},{-278,8526724734973912518u},{-278,8586196004426313671u},
{-277,126788536473666u},{-277,128123022151643u},{-277,203128555493461u},{-277,306694561757157u},{-277,355808593533051u},{-277,661168669612231u},{-277,711617187066102u},{-277,1226778247028628u},{-277,10016020046044508u},{-277,10066468563498379u},{-277,10116917080952250u},{-277,16970170478920099u},{-277,17071067513827841u},{-277,25530928494560955u},{-277,51061856989121910u},{-277,84901300912054366u},{-277,93512507445149093u},{-277,102123713978243820u},{-277,110734920511338547u},{-277,161594983430644973u},{-277,204247427956487640u},{-277,263718697408888793u},{-277,408494855912975280u},{-277,467966125365376433u},{-277,757518442373549407u},{-277,816989711825950560u},{-277,876460981278351713u},{-277,935932250730752866u},{-277,1633979423651901120u},{-277,1693450693104302273u},{-277,3386901386208604546u},{-277,4535692271428939779u},{-277,5625011887196873859u},{-277,6773802772417209092u},{-277,7922593657637544325u},{-277,9071384542857879558u},
{-276,103566006263696u},{-276,111520532669707u},{-276,119475059075718u},{-276,124813001787626u},{-276,172592547885543u},{-276,215086538933403u},{-276,223041065339414u},{-276,294736578317215u},{-276,345185095771086u},{-276,539024639180559u},{-276,1000806272024005u},{-276,1003946732336618u},{-276,1006248990059615u},{-276,1011691708095225u},{-276,3252778246913181u},{-276,3353675281820923u},{-276,3454572316728665u},{-276,3555469351636407u},{-276,5106185698912191u},{-276,6707350563641846u},{-276,6909144633457330u},{-276,8409412463279243u},{-276,8813000602910211u},{-276,9808783258193414u},{-276,10212371397824382u},{-276,12015330332369521u},{-276,15217660061828831u},{-276,20424742795648764u},{-276,25430031459653213u},{-276,29035949328743491u},{-276,35844196927293079u},{-276,40849485591297528u},{-276,45854774255301977u},{-276,63077187321491431u},{-276,71688393854586158u},{-276,76693682518590607u},{-276,81698971182595056u},{-276,86704259846599505u},{-276,91709548510603954u},{-276,96714837174608403u},{-276,126154374642982862u},{-276,163397942365190112u},{-276,212858634489582367u},{-276,222869211817591265u},{-276,267324615277979071u},{-276,326795884730380224u},{-276,386267154182781377u},{-276,485188538431565887u},{-276,653591769460760448u},{-276,811984423161946111u},{-276,930926962066748417u},{-276,1009827191659515131u},{-276,1010419386175167366u},{-276,1307183538921520896u},{-276,1584518731527508865u},{-276,1861853924133496834u},{-276,2614367077843041792u},{-276,3169037463055017730u},{-276,3763157963063377025u},{-276,5189284040889700227u},{-276,6338074926110035460u},{-276,7486865811330370693u},
{-275,100018041948024u},{-275,100562313751585u},{-275,101231756063899u},{-275,117894631326886u},{-275,151889824165174u},{-275,168343148780757u},{-275,202338341619045u},{-275,235789262653772u},{-275,286237780107643u},{-275,404676683238090u},{-275,590017428437991u},{-275,690914463345733u},{-275,791811498253475u},{-275,824718147484641u},{-275,859801883930051u},{-275,943157050615088u},{-275,978240787060498u},{-275,1061595953745535u},{-275,1381828926691466u},{-275,2123191907491070u},{-275,2763657853382932u},{-275,4364822718112587u},{-275,5527315706765864u},{-275,8611206533094727u},{-275,8729645436225174u},{-275,11054631413531728u},{-275,11173070316662175u},{-275,17340851969319901u},{-275,22227701730193903u},{-275,22346140633324350u},{-275,34681703938639802u},{-275,44573842363518253u},{-275,69363407877279604u},{-275,89147684727036506u},{-275,138608376851428761u},{-275,178295369454073012u},{-275,316903746305501773u},{-275,514983392609331687u},{-275,633807492611003546u},{-275,752631592612675405u},{-275,990516670422280017u},{-275,1029966785218663374u},{-275,1267614985222007092u},{-275,1505263185225350810u},{-275,2535229970444014184u},{-275,3010526370450701620u},{-275,4159317255671036853u},{-275,5070459940888028368u},{-275,7407491826125082191u},{-275,8318634511342073706u},{-275,9229777196559065221u},
{-274,151345552361613u},{-274,154853926006154u},{-274,158362299650695u},{-274,161870673295236u},{-274,212319190749107u},{-274,316724599301390u},{-274,323741346590472u},{-274,424638381498214u},{-274,529043790050497u},{-274,633449198602780u},{-274,849276762996428u},{-274,967715666126875u},{-274,1058087580100994u},{-274,1176526483231441u},{-274,1266898397205560u},{-274,1698553525992856u},{-274,2234614063332435u},{-274,3515545955116159u},{-274,4469228126664870u},{-274,6912653007101871u},{-274,8938456253329740u},{-274,10135187177644480u},{-274,10253626080774927u},{-274,10372064983905374u},{-274,13825306014203742u},{-274,17876912506659480u},{-274,27769050931537931u},{-274,35635386110188513u},{-274,47553327781294833u},{-274,71270772220377026u},{-274,79255546302158055u},{-274,87121881480808637u},{-274,95106655562589666u},{-274,103091429644370695u},{-274,142541544440754052u},{-274,150526318522535081u},{-274,158511092604316110u},{-274,245632974085124747u},{-274,301052637045070162u},{-274,419876737046742021u},{-274,602105274090140324u},{-274,839753474093484042u},{-274,1021982011136882345u},{-274,1204210548180280648u},{-274,2226192559317162993u},{-274,2408421096360561296u},{-274,2590649633403959599u},
{-273,111422155841365u},{-273,112656345142392u},{-273,126689839720556u},{-273,133706587009638u},{-273,164241954768020u},{-273,193543133225375u},{-273,253379679441112u},{-273,268647363320303u},{-273,327249720235013u},{-273,387086266450750u},{-273,446922812666487u},{-273,506759358882224u},{-273,536060537339579u},{-273,655733629771053u},{-273,774172532901500u},{-273,893845625332974u},{-273,1009816149861367u},{-273,1011050339162394u},{-273,1012284528463421u},{-273,1013518717764448u},{-273,1014752907065475u},{-273,1015987096366502u},{-273,1072121074679158u},{-273,1311467259542106u},{-273,1429906162672553u},{-273,1787691250665948u},{-273,2741373422214659u},{-273,3575382501331896u},{-273,5482746844429318u},{-273,5601185747559765u},{-273,7150765002663792u},{-273,9179036627493715u},{-273,9415914433754609u},{-273,9652792240015503u},{-273,12751950750223557u},{-273,14301530005327584u},{-273,15851109260431611u},{-273,20618285928874139u},{-273,23717444439082193u},{-273,28603060010655168u},{-273,31702218520863222u},{-273,41236571857748278u},{-273,52320504449737361u},{-273,63404437041726444u},{-273,77587528143923581u},{-273,82473143715496556u},{-273,99755393327901747u},{-273,104641008899474722u},{-273,121923258511879913u},{-273,126808874083452888u},{-273,160060671859420137u},{-273,204396402227376469u},{-273,248732132595332801u},{-273,315235728147267299u},{-273,320121343718840274u},{-273,408792804454752938u},{-273,497464265190665602u},{-273,502349880762238577u},{-273,635357071866107573u},{-273,817585608909505876u},{-273,999814145952904179u},{-273,1004699761524477154u},{-273,1009585377096050129u},{-273,1014470992667623104u},{-273,1270714143732215146u},{-273,1275599759303788121u},{-273,1635171217819011752u},{-273,1999628291905808358u},{-273,2546313903036003267u},{-273,3275228051209596479u},{-273,3999256583811616716u},{-273,4004142199383189691u},{-273,5092627806072006534u},{-273,6550456102419192958u},{-273,7274484635021213195u},{-273,8717656084653680694u},{-273,8737198546939972594u},{-273,9461227079541992831u},
{-272,100858196056034u},{-272,102092385357061u},{-272,103326574658088u},{-272,131393563814416u},{-272,154834506580300u},{-272,202950581413095u},{-272,238111995561921u},{-272,309669013160600u},{-272,381226030759279u},{-272,500899123190753u},{-272,619338026321200u},{-272,762452061518558u},{-272,834009079117237u},{-272,883359343251059u},{-272,952447982247684u},{-272,1120237149511953u},{-272,1406465219906669u},{-272,1835807325498743u},{-272,2240474299023906u},{-272,2812930439813338u},{-272,3217597413338501u},{-272,3503825483733217u},{-272,4480948598047812u},{-272,6602983993941271u},{-272,7007650967466434u},{-272,7984774081781029u},{-272,8961897196095624u},{-272,12228844873567947u},{-272,13205967987882542u},{-272,1452942680775613449u},{-272,1454896927004242639u},{-272,1456851173232871829u},{-272,2181856828949206661u},{-272,2909793854008485278u},{-272,3639685125296393085u},{-272,4363713657898413322u},{-272,5819587708016970556u},{-272,7279370250592786170u},{-272,8003398783194806407u},{-272,8727427315796826644u},
{-271,110049877464915u},{-271,123867605264240u},{-271,137685333063565u},{-271,162360465130476u},{-271,233917482729155u},{-271,247735210528480u},{-271,481652693257635u},{-271,495470421056960u},{-271,767880763652351u},{-271,795516219251001u},{-271,963305386515270u},{-271,990940842113920u},{-271,1158730009378189u},{-271,10051538566477188u},{-271,10246963189340107u},{-271,10442387812203026u},{-271,724810231093471913u},{-271,726373628076375265u},{-271,727937025059278617u},{-271,729500422042181969u},{-271,731063819025085321u},{-271,1455874050118557234u},{-271,2183029376686384175u},{-271,2911748100237114468u},{-271,3638903426804941409u},{-271,4366058753372768350u},{-271,5823496200474228936u},{-271,6544397939110442469u},{-271,7277806853609882818u},{-271,7998708592246096351u},{-271,8732117506745536700u},
{-270,101857629771257u},{-270,104621175331122u},{-270,107384720890987u},{-270,181606895063594u},{-270,187133986183324u},{-270,192661077303054u},{-270,198188168422784u},{-270,203715259542514u},{-270,209242350662244u},{-270,374267972366648u},{-270,385322154606108u},{-270,396376336845568u},{-270,575219686349297u},{-270,597328050828217u},{-270,770644309212216u},{-270,792752673691136u},{-270,966068932075135u},{-270,1010285661032975u},{-270,1032394025511895u},{-270,1050951732543454u},{-270,1054502389990815u},{-270,1541288618424432u},{-270,1736713241287351u},{-270,1932137864150270u},{-270,143711328632371701u},{-270,145274725615275053u},{-270,146838122598178405u},{-270,148401519581081757u},{-270,290549451230550106u},{-270,293676245196356810u},{-270,433479081371470131u},{-270,436605875337276835u},{-270,581098902461100212u},{-270,730282120533633645u},{-270,873211750674553670u},{-270,1009887792883860287u},{-270,1016141380815473695u},{-270,1022394968747087103u},{-270,1028648556678700511u},{-270,1162197804922200424u},{-270,1311381022994733857u},{-270,1746423501349107340u},{-270,2181465979703480823u},{-270,2473578827916934281u},{-270,3343663784625681247u},{-270,3492847002698214680u},{-270,4362931959406961646u},{-270,4947157655833868562u},{-270,6836510787323895927u},{-270,6985694005396429360u},{-270,9446765657450136825u},{-270,9595948875522670258u},{-270,9745132093595203691u},{-270,9894315311667737124u},
{-269,101464073827509u},{-269,103674910275401u},{-269,105885746723293u},{-269,184370440623459u},{-269,188792113519243u},{-269,193213786415027u},{-269,197635459310811u},{-269,202057132206595u},{-269,206478805102379u},{-269,377584227038486u},{-269,386427572830054u},{-269,395270918621622u},{-269,577430522797189u},{-269,595117214380325u},{-269,772855145660108u},{-269,924063039565187u},{-269,959436422731459u},{-269,994809805897731u},{-269,1154861045594378u},{-269,1350285668457297u},{-269,1545710291320216u},{-269,26631679799554815u},{-269,27804227536732329u},{-269,29367624519635681u},{-269,30931021502539033u},{-269,58735249039271362u},{-269,87321175067455367u},{-269,106526719198219260u},{-269,117470498078542724u},{-269,146056424106726729u},{-269,174642350134910734u},{-269,203228276163094739u},{-269,234940996157085448u},{-269,292112848213453458u},{-269,349284700269821468u},{-269,406456552326189478u},{-269,584225696426906916u},{-269,698569400539642936u},{-269,812913104652378956u},{-269,939763984628341792u},{-269,949589146861685573u},{-269,1019268174781280399u},{-269,1397138801079285872u},{-269,1889353131490027365u},{-269,2038536349562560798u},{-269,2794277602158571744u},{-269,4683630733648599109u},{-269,5588555204317143488u},{-269,8760703432773720705u},{-269,9367261467297198218u},
{-268,119023442876065u},{-268,161645705765276u},{-268,238046885752130u},{-268,262982457058205u},{-268,476093771504260u},{-268,501029342810335u},{-268,756762920145601u},{-268,806634062757751u},{-268,952187543008520u},{-268,1002058685620670u},{-268,1197483308483589u},{-268,1367972360040433u},{-268,1758821605766271u},{-268,4544637468459287u},{-268,5326335959910963u},{-268,6498883697088477u},{-268,10116269193845319u},{-268,10162080388871788u},{-268,10652671919821926u},{-268,12997767394176954u},{-268,15588158634007051u},{-268,18714952599813755u},{-268,21305343839643852u},{-268,51454666850731209u},{-268,62889037262004811u},{-268,74323407673278413u},{-268,90938560564212209u},{-268,92011366016165423u},{-268,102909333701462418u},{-268,263526922185269453u},{-268,309264403830363861u},{-268,377870626298005473u},{-268,618528807660727722u},{-268,755741252596010946u},{-268,996399433958733195u},{-268,1179349360539110827u},{-268,1237057615321455444u},{-268,1511482505192021892u},{-268,1752140686554744141u},{-268,3504281373109488282u},{-268,4592155770358410293u},{-268,5920688348970054553u},{-268,7008562746218976564u},{-268,8096437143467898575u},
{-267,100205868562067u},{-267,105192982823282u},{-267,110180097084497u},{-267,170489051556844u},{-267,180463280079274u},{-267,190437508601704u},{-267,200411737124134u},{-267,210385965646564u},{-267,220360194168994u},{-267,380875017203408u},{-267,400823474248268u},{-267,420771931293128u},{-267,596248097111187u},{-267,761750034406816u},{-267,801646948496536u},{-267,967148885792165u},{-267,1007045799881885u},{-267,1046942713971605u},{-267,1086839628061325u},{-267,1192496194222374u},{-267,1397895045607723u},{-267,1603293896993072u},{-267,2384992388444748u},{-267,3332192817192053u},{-267,3742990519962751u},{-267,4153788222733449u},{-267,5306387502866103u},{-267,6127982908407499u},{-267,7485981039925502u},{-267,8969584194649414u},{-267,9539969553778992u},{-267,10076372279755599u},{-267,12792368542791605u},{-267,14971962079851004u},{-267,17151555616910403u},{-267,29943924159702008u},{-267,32123517696761407u},{-267,34303111233820806u},{-267,39198701033916211u},{-267,43557888108035009u},{-267,47917075182153807u},{-267,64247035393522814u},{-267,68606222467641612u},{-267,70785816004701011u},{-267,78397402067832422u},{-267,87115776216070018u},{-267,95834150364307614u},{-267,112164110575676621u},{-267,128494070787045628u},{-267,137212444935283224u},{-267,174231552432140036u},{-267,199279886791746639u},{-267,224328221151353242u},{-267,249376555510959845u},{-267,373511439223886675u},{-267,398559773583493278u},{-267,423608107943099881u},{-267,448656442302706484u},{-267,772071212807379953u},{-267,797119547166986556u},{-267,822167881526593159u},{-267,847216215886199762u},{-267,1594239094333973112u},{-267,1619287428693579715u},{-267,1644335763053186318u},{-267,3238574857387159430u},{-267,3288671526106372636u},{-267,4326449254636081441u},{-267,5389275317525396849u},{-267,6477149714774318860u},{-267,7565024112023240871u},{-267,8652898509272162882u},{-267,9003575190306655324u},{-267,9390096225486592451u},{-267,9590482900363445275u},{-267,9790869575240298099u},{-267,9991256250117150923u},
{-266,177471011522545u},{-266,185450394340489u},{-266,193429777158433u},{-266,201409159976377u},{-266,209388542794321u},{-266,217367925612265u},{-266,386859554316866u},{-266,402818319952754u},{-266,584279022884271u},{-266,773719108633732u},{-266,805636639905508u},{-266,883365366203753u},{-266,917347999356724u},{-266,947200428747305u},{-266,1168558045768542u},{-266,1389915662789779u},{-266,2558473708558321u},{-266,2779831325579558u},{-266,5116947417116642u},{-266,5338305034137879u},{-266,10012537217212047u},{-266,10233894834233284u},{-266,10455252451254521u},{-266,10676610068275758u},{-266,20689147285487805u},{-266,20910504902509042u},{-266,33323993273801725u},{-266,41378294570975610u},{-266,49875311102191969u},{-266,74702287844777335u},{-266,99750622204383938u},{-266,107804923501557823u},{-266,108690353969642771u},{-266,149404575689554670u},{-266,174452910049161273u},{-266,199501244408767876u},{-266,298809151379109340u},{-266,323857485738715943u},{-266,348905820098322546u},{-266,647714971477431886u},{-266,855270517183373647u},{-266,923246649433104519u},{-266,937584391091282393u},{-266,980512188981406662u},{-266,1295429942954863772u},{-266,1710541034366747294u},{-266,1918096580072689055u},{-266,2590859885909727544u},{-266,3263623191746766033u},{-266,4508956465982416599u},{-266,5181719771819455088u},{-266,5854483077656493577u},{-266,9017912931964833198u},{-266,9690676237801871687u},
{-265,110472298322499u},{-265,141976809218036u},{-265,173894340489812u},{-265,189440085749461u},{-265,220944596644998u},{-265,378880171498922u},{-265,600237788520159u},{-265,663246810311233u},{-265,757760342997844u},{-265,853099916436933u},{-265,979117960019081u},{-265,1200475577040318u},{-265,1326493620622466u},{-265,1958235920038162u},{-265,2179593537059399u},{-265,4137829457097561u},{-265,6664798654760345u},{-265,8275658914195122u},{-265,9886519173629899u},{-265,10329234407672373u},{-265,11054664199022202u},{-265,11718737050085913u},{-265,13329597309520690u},{-265,14940457568955467u},{-265,16551317828390244u},{-265,18162178087825021u},{-265,26659194619041380u},{-265,29880915137910934u},{-265,33102635656780488u},{-265,59761830275821868u},{-265,84810164635428471u},{-265,93749896400687304u},{-265,95200755983386962u},{-265,119523660551643736u},{-265,151015435948989447u},{-265,207555545705941761u},{-265,239047321103287472u},{-265,383619316014537811u},{-265,415111091411883522u},{-265,446602866809229233u},{-265,767238632029075622u},{-265,830222182823767044u},{-265,893205733618458466u},{-265,1314034836276731267u},{-265,1377018387071422689u},{-265,1534477264058151244u},{-265,2207240569895189733u},{-265,3741717833953340977u},{-265,4414481139790379466u},{-265,5087244445627417955u},{-265,7483435667906681954u},{-265,8156198973743720443u},{-265,8828962279580758932u},{-265,9501725585417797421u},
{-264,100979643016214u},{-264,107445753345817u},{-264,113911863675420u},{-264,145416374570957u},{-264,201959286032428u},{-264,214891506691634u},{-264,271434418153105u},{-264,290832749141914u},{-264,347375660603385u},{-264,429783013383268u},{-264,486325924844739u},{-264,638208409745299u},{-264,694751321206770u},{-264,916108938228007u},{-264,972651849689478u},{-264,1024380732326302u},{-264,1029194761150949u},{-264,1080923643787773u},{-264,1085737672612420u},{-264,1332959730952069u},{-264,1832217876456014u},{-264,1888760787917485u},{-264,2665919461904138u},{-264,3165177607408083u},{-264,3777521575834970u},{-264,4276779721338915u},{-264,4832580778304331u},{-264,5331838923808276u},{-264,5831097069312221u},{-264,8054301297173885u},{-264,8553559442677830u},{-264,8939731765258833u},{-264,9212818264916894u},{-264,9392075056950601u},{-264,9665161556608662u},{-264,9938248056266723u},{-264,10663677847616552u},{-264,13386140220982161u},{-264,14384656511990051u},{-264,17107118885355660u},{-264,21327355695233104u},{-264,25048334359606603u},{-264,28769313023980102u},{-264,42654711390466208u},{-264,59262572130317923u},{-264,66704529459064921u},{-264,85309422780932416u},{-264,87033368863290135u},{-264,101917283520784131u},{-264,116801198178278127u},{-264,133409058918129842u},{-264,187226706301716547u},{-264,203834567041568262u},{-264,250210257096407969u},{-264,266818117836259684u},{-264,391061273343284809u},{-264,407669134083136524u},{-264,500420514192815938u},{-264,517028374932667653u},{-264,782122546686569618u},{-264,798730407426421333u},{-264,1000841028385631876u},{-264,1017448889125483591u},{-264,1034056749865335306u},{-264,1362134472413928693u},{-264,1597460814852842666u},{-264,1799571435812053209u},{-264,2034897778250967182u},{-264,2270224120689881155u},{-264,2488942602388943413u},{-264,2724268944827857386u},{-264,4069795556501934364u},{-264,4305121898940848337u},{-264,4540448241379762310u},{-264,4977885204777886826u},{-264,6558738158890877777u},{-264,7029390843768705723u},{-264,8139591113003868728u},{-264,8610243797881696674u},{-264,9183359939279624873u},{-264,9786875510076266539u},{-264,9955770409555773652u},
{-263,100153602263736u},{-263,104363684762489u},{-263,108573767261242u},{-263,117295905421695u},{-263,138950264241354u},{-263,160604623061013u},{-263,217147534522484u},{-263,277900528482708u},{-263,377752157583497u},{-263,455949427864627u},{-263,555801056965416u},{-263,655652686066205u},{-263,911898855729254u},{-263,938367243373560u},{-263,985282097185737u},{-263,1211453743031621u},{-263,1311305372132410u},{-263,1411157001233199u},{-263,3022017260667976u},{-263,3221720518869554u},{-263,3421423777071132u},{-263,3920681922575077u},{-263,6443441037739108u},{-263,6842847554142264u},{-263,7841363845150154u},{-263,9565309927507873u},{-263,10364122960314185u},{-263,11162935993120497u},{-263,12886882075478216u},{-263,13685695108284528u},{-263,17406673772658027u},{-263,20728245920628370u},{-263,24049818068598713u},{-263,31491775397345711u},{-263,34813347545316054u},{-263,38134919693286397u},{-263,59661978646721079u},{-263,62983550794691422u},{-263,66305122942661765u},{-263,116002385145471815u},{-263,119323957293442158u},{-263,122645529441412501u},{-263,232004770290943630u},{-263,447401679842035545u},{-263,454044824137976231u},{-263,672763305837038489u},{-263,686049594428919861u},{-263,908089648275952462u},{-263,928019081163774520u},{-263,954591658347537264u},{-263,981164235531300008u},{-263,1123486557827044377u},{-263,1594139242704872323u},{-263,1816179296551904924u},{-263,3632358593103809848u},
{-262,131130537213241u},{-262,168424350089126u},{-262,262261074426482u},{-262,499258145503945u},{-262,524522148852964u},{-262,998516291007890u},{-262,1023780294356909u},{-262,1049044297705928u},{-262,1423186810760065u},{-262,2072824592062837u},{-262,4145649184125674u},{-262,8266034364902329u},{-262,8291298368251348u},{-262,8316562371600367u},{-262,13261024588532353u},{-262,16582596736502696u},{-262,23200477029094363u},{-262,26522049177064706u},{-262,29843621325035049u},{-262,46400954058188726u},{-262,53044098354129412u},{-262,82837191672466423u},{-262,89480335968407109u},{-262,92801908116377452u},{-262,95820312224159567u},{-262,96224536277743871u},{-262,99242940385525986u},{-262,99647164439110290u},{-262,129238145730655149u},{-262,142524434322536521u},{-262,178960671936814218u},{-262,185603816232754904u},{-262,357921343873628436u},{-262,493802633900224271u},{-262,593247686312542409u},{-262,742415264931019616u},{-262,765565213953415941u},{-262,788715162975812266u},{-262,964455318778052217u},{-262,987605267800448542u},{-262,1186495372625084818u},{-262,1209645321647481143u},{-262,1408535426472117419u},{-262,1952060586578500759u},{-262,2396140694272565961u},{-262,3039110906791267439u},{-262,4792281388545131922u},{-262,5657291654910866001u},{-262,6078221813582534878u},{-262,6101371762604931203u},{-262,7831392295336399361u},{-262,9561412828067867519u},{-262,9584562777090263844u},
{-261,125115632449808u},{-261,129686679401497u},{-261,199703258201578u},{-261,284637362152013u},{-261,399406516403156u},{-261,424670519752175u},{-261,569274724304026u},{-261,798813032806312u},{-261,824077036155331u},{-261,849341039504350u},{-261,1113285445259033u},{-261,1138549448608052u},{-261,1648154072310662u},{-261,2642099316366863u},{-261,7297353124195147u},{-261,8605770780704069u},{-261,9158923595562454u},{-261,9361035622354606u},{-261,9762604417118877u},{-261,9964716443911029u},{-261,12581551756928873u},{-261,14594706248390294u},{-261,17211541561408138u},{-261,20533113709378481u},{-261,33819402301259853u},{-261,77502465033034659u},{-261,82132454837513924u},{-261,3473931034876374111u},{-261,3483191014485332641u},{-261,5213211547216800799u},{-261,8701032551506612705u},
{-260,101488469068299u},{-260,102353380412745u},{-260,110198107299454u},{-260,111063018643900u},{-260,144604204551851u},{-260,169868207900870u},{-260,212551487712199u},{-260,314472412452721u},{-260,339736415801740u},{-260,450366978773417u},{-260,518314261933765u},{-260,679472831603480u},{-260,790103394575157u},{-260,916423411320252u},{-260,935572510471454u},{-260,976525967593891u},{-260,1197787093537245u},{-260,1580206789150314u},{-260,1741365358820029u},{-260,2234415617404775u},{-260,2395574187074490u},{-260,3160413578300628u},{-260,3321572147970343u},{-260,3865150413253127u},{-260,4791148374148980u},{-260,5717146335044833u},{-260,7730300826506254u},{-260,8656298787402107u},{-260,9582296748297960u},{-260,1729094534770572305u},{-260,1732798526614155717u},{-260,1736502518457739129u},{-260,1740206510301322541u},{-260,1743910502144905953u},{-260,1747614493988489365u},{-260,3473005036915478258u},{-260,3480413020602645082u},{-260,3487821004289811906u},{-260,5207655559451425681u},{-260,5222471526825759329u},{-260,6960826041205290164u},{-260,8676956604523320527u},{-260,8706588539271987823u},
{-259,103662852386753u},{-259,135894566320696u},{-259,168126280254639u},{-259,207325704773506u},{-259,239557418707449u},{-259,271789132641392u},{-259,304020846575335u},{-259,382419695613069u},{-259,414651409547012u},{-259,446883123480955u},{-259,479114837414898u},{-259,511346551348841u},{-259,543578265282784u},{-259,764839391226138u},{-259,829302819094024u},{-259,893766246961910u},{-259,958229674829796u},{-259,1022693102697682u},{-259,1087156530565568u},{-259,1151619958433454u},{-259,1787532493923820u},{-259,1916459349659592u},{-259,2713530454819673u},{-259,2842457310555445u},{-259,3832918699319184u},{-259,4758916660215037u},{-259,5684914621110890u},{-259,6739839437742515u},{-259,7665837398638368u},{-259,8591835359534221u},{-259,10443831281325927u},{-259,10854121819278692u},{-259,11369829242221780u},{-259,95377789972272859u},{-259,97229785894064565u},{-259,99081781815856271u},{-259,342114915110531049u},{-259,345818906954114461u},{-259,349522898797697873u},{-259,353226890641281285u},{-259,691637813908228922u},{-259,699045797595395746u},{-259,1035604724940551677u},{-259,1050420692314885325u},{-259,1383275627816457844u},{-259,1398091595190791492u},
{-258,121608338630134u},{-258,139203018352801u},{-258,178753249392382u},{-258,243216677260268u},{-258,357506498784764u},{-258,568491462111089u},{-258,632954889978975u},{-258,715012997569528u},{-258,797071105160081u},{-258,1054924816631625u},{-258,1136982924222178u},{-258,1347967887548503u},{-258,1430025995139056u},{-258,2273965848444356u},{-258,2695935775097006u},{-258,3621933735992859u},{-258,4547931696888712u},{-258,9588212039320742u},{-258,9857745139492171u},{-258,63237394441089433u},{-258,66941386284672845u},{-258,70645378128256257u},{-258,74349369971839669u},{-258,76201365893631375u},{-258,83609349580798199u},{-258,91017333267965023u},{-258,126474788882178866u},{-258,133882772569345690u},{-258,141290756256512514u},{-258,148698739943679338u},{-258,210084138462977065u},{-258,282581512513025028u},{-258,420168276925954130u},{-258,840336553851908260u},{-258,898017960527622575u},{-258,1130326050052100112u},{-258,1188007456727814427u},{-258,2433696320131343169u},{-258,3129038125883155503u},{-258,3824379931634967837u},{-258,4867392640262686338u},{-258,6258076251766311006u},{-258,7648759863269935674u},{-258,9730037892060511845u},{-258,9731620354882132122u},{-258,9733202817703752399u},{-258,9736367743346992953u},{-258,9737950206168613230u},{-258,9739532668990233507u},
{-257,101988665053197u},{-257,104324542793174u},{-257,106660420533151u},{-257,108996298273128u},{-257,111332176013105u},{-257,124255100255818u},{-257,126590977995795u},{-257,128926855735772u},{-257,208649085586348u},{-257,210984963326325u},{-257,253181955991590u},{-257,335240063582143u},{-257,421969926652650u},{-257,506363911983180u},{-257,757209990234793u},{-257,843939853305300u},{-257,954028493775577u},{-257,975353780126728u},{-257,994040802046544u},{-257,1012727823966360u},{-257,1263573902217973u},{-257,1514419980469586u},{-257,2102842000043319u},{-257,2527147804435946u},{-257,3028839960939172u},{-257,3453145765331799u},{-257,4629989804479265u},{-257,5054295608871892u},{-257,6481985726270971u},{-257,6906291530663598u},{-257,8835673804565903u},{-257,9259979608958530u},{-257,9684285413351157u},{-257,13388277256934569u},{-257,15240273178726275u},{-257,19368570826702314u},{-257,22648256865893099u},{-257,26776554513869138u},{-257,30480546357452550u},{-257,42016827692595413u},{-257,53553109027738276u},{-257,60961092714905100u},{-257,72497374050047963u},{-257,84033655385190826u},{-257,95569936720333689u},{-257,107106218055476552u},{-257,118642499390619415u},{-257,121922185429810200u},{-257,133458466764953063u},{-257,144994748100095926u},{-257,179603592105524515u},{-257,191139873440667378u},{-257,202676154775810241u},{-257,313062058870477578u},{-257,336134621540763304u},{-257,359207184211049030u},{-257,382279746881334756u},{-257,672269243081526608u},{-257,718414368422098060u},{-257,970630094973620769u},{-257,972212557795241046u},{-257,973795020616861323u},{-257,975377483438481600u},{-257,976959946260101877u},{-257,1066085271298004227u},{-257,1344538486163053216u},{-257,1436828736844196120u},{-257,1715281951709245109u},{-257,2132170542596008454u},{-257,3430563903418490218u},{-257,3801307368964682111u},{-257,4450504049375922993u},{-257,5191990980468306779u},{-257,5933477911560690565u},{-257,7602614737929364222u},{-257,7973358203475556115u},{-257,8901008098751845986u},{-257,9456332065660323687u},
{-256,101272782396636u},{-256,149573295854977u},{-256,168787970661060u},{-256,202545564793272u},{-256,318361266516037u},{-256,337575941322120u},{-256,405091129586544u},{-256,520906831309309u},{-256,675151882644240u},{-256,810182259173088u},{-256,925997960895853u},{-256,1041813662618618u},{-256,1157629364341383u},{-256,1350303765288480u},{-256,1466119467011245u},{-256,1851995921791706u},{-256,2507933129629863u},{-256,2932238934022490u},{-256,3048054635745255u},{-256,3703991843583412u},{-256,4359929051421569u},{-256,6096109271490510u},{-256,6752046479328667u},{-256,7407983687166824u},{-256,10031732518519452u},{-256,10687669726357609u},{-256,11073018528251803u},{-256,11343606934195766u},{-256,11728955736089960u},{-256,12192218542981020u},{-256,13504092958657334u},{-256,22416625462447569u},{-256,23728499878123883u},{-256,24384437085962040u},{-256,35920718421104903u},{-256,47456999756247766u},{-256,48768874171924080u},{-256,71841436842209806u},{-256,94913999512495532u},{-256,97537748343848160u},{-256,99120211165468437u},{-256,106450280847638395u},{-256,143682873684419612u},{-256,180915466521200829u},{-256,250133154532058007u},{-256,287365747368839224u},{-256,324598340205620441u},{-256,574731494737678448u},{-256,611964087574459665u},{-256,649196680411240882u},{-256,1112230396638575679u},{-256,1149462989475356896u},{-256,1186695582312138113u},{-256,1223928175148919330u},{-256,1261160767985700547u},{-256,1298393360822481764u},{-256,1594671640695111223u},{-256,2373391164624276226u},{-256,3189343281390222446u},{-256,4746782329248552452u},{-256,5599967038851279889u},{-256,6378686562780444892u},{-256,7082940901036047461u},{-256,8789310320241502335u},{-256,9493564658497104904u},
{-255,111867236184295u},{-255,135030376528848u},{-255,223734472368590u},{-255,246897612713143u},{-255,270060753057696u},{-255,540121506115392u},{-255,586447786804498u},{-255,609610927149051u},{-255,702263488527263u},{-255,794916049905475u},{-255,1080243012230784u},{-255,1172895573608996u},{-255,1219221854298102u},{-255,1875159062136259u},{-255,2345791147217992u},{-255,2438443708596204u},{-255,3750318124272518u},{-255,4220950209354251u},{-255,4876887417192408u},{-255,6659393917950455u},{-255,8441900418708502u},{-255,9653752994815931u},{-255,9753774834384816u},{-255,9853796673953701u},{-255,9953818513522586u},{-255,11536281335142863u},{-255,13318787835900910u},{-255,19507549668769632u},{-255,21290056169527679u},{-255,23072562670285726u},{-255,39015099337539264u},{-255,42580112339055358u},{-255,78030198675078528u},{-255,85160224678110716u},{-255,92290250681142904u},{-255,115262791511859745u},{-255,122392817514891933u},{-255,129522843517924121u},{-255,207553042193002649u},{-255,244785635029783866u},{-255,489571270059567732u},{-255,778719523929165003u},{-255,979142540119135464u},{-255,1030635184961981057u},{-255,1179565556309105925u},{-255,1557439047858330006u},{-255,1757862064048300467u},{-255,3315301111906630473u},{-255,3515724128096600934u},{-255,7031448256193201868u},{-255,9442072013654259311u},
{-254,109498156861213u},{-254,115815701722765u},{-254,138978842067318u},{-254,158983209981095u},{-254,178987577894872u},{-254,317966419962190u},{-254,337970787875967u},{-254,357975155789744u},{-254,635932839924380u},{-254,655937207838157u},{-254,675941575751934u},{-254,695945943665711u},{-254,971800161142105u},{-254,991804529055882u},{-254,1311874415676314u},{-254,1331878783590091u},{-254,1351883151503868u},{-254,2643753199266405u},{-254,2663757567180182u},{-254,2683761935093959u},{-254,5327515134360364u},{-254,7070012899290857u},{-254,7110021635118411u},{-254,8832515032135127u},{-254,8912532503790235u},{-254,10655030268720728u},{-254,12397528033651221u},{-254,14220043270236822u},{-254,21310060537441456u},{-254,23052558302371949u},{-254,30182584305404137u},{-254,44362618839813405u},{-254,46105116604743898u},{-254,72722687908631941u},{-254,92210233209487796u},{-254,108212782980482665u},{-254,111697778510343651u},{-254,125957830516408027u},{-254,145445375817263882u},{-254,216425565960965330u},{-254,235913111261821185u},{-254,271403206333671909u},{-254,290890751634527764u},{-254,452338677222786515u},{-254,471826222523642370u},{-254,542806412667343818u},{-254,743229428857314279u},{-254,904677354445573030u},{-254,943652445047284740u},{-254,985472391405616572u},{-254,991019954587028483u},{-254,996567517768440394u},{-254,1085612825334687636u},{-254,1486458857714628558u},{-254,1647906783302887309u},{-254,2009777725081116521u},{-254,2972917715429257116u},{-254,3134365641017515867u},{-254,4982695440510373637u},{-254,6268731282035031734u},{-254,7231871272383172329u},{-254,8039110900324466084u},{-254,8356459188319571675u},{-254,9002250890672606679u},{-254,9319599178667712270u},{-254,9965390881020747274u},
{-253,127186567984876u},{-253,147190935898653u},{-253,254373135969752u},{-253,274377503883529u},{-253,508746271939504u},{-253,528750639853281u},{-253,548755007767058u},{-253,805022692706593u},{-253,977483808051454u},{-253,1017492543879008u},{-253,1057501279706562u},{-253,1097510015534116u},{-253,1389997338361639u},{-253,1430006074189193u},{-253,1782506500758047u},{-253,2115002559413124u},{-253,2860012148378386u},{-253,3565013001516094u},{-253,5307510766446587u},{-253,6717512472722003u},{-253,7130026003032188u},{-253,8872523767962681u},{-253,10615021532893174u},{-253,11027535063203359u},{-253,13847538475754191u},{-253,17745047535925362u},{-253,21642556596096533u},{-253,27695076951508382u},{-253,31592586011679553u},{-253,35490095071850724u},{-253,47182622252364237u},{-253,74877699203872619u},{-253,78775208264043790u},{-253,82672717324214961u},{-253,94365244504728474u},{-253,98262753564899645u},{-253,98490379807830324u},{-253,98632528139658657u},{-253,99543033111381373u},{-253,99685181443209706u},{-253,165345434648429922u},{-253,173140452768772264u},{-253,180935470889114606u},{-253,188730489009456948u},{-253,196525507129799290u},{-253,200423016189970461u},{-253,361870941778229212u},{-253,377460978018913896u},{-253,562293957968199673u},{-253,723741883556458424u},{-253,754921956037827792u},{-253,801692064759881844u},{-253,869599772904032491u},{-253,931959917866771227u},{-253,994320062829509963u},{-253,1124587915936399346u},{-253,1254855769043288729u},{-253,1317215914006027465u},{-253,1447483767112916848u},{-253,1509843912075655584u},{-253,1671291837663914335u},{-253,1863919835733542454u},{-253,3149955677258200551u},{-253,3342583675327828670u},{-253,6299911354516401102u},{-253,6685167350655657340u},
{-252,113751875136167u},{-252,133756243049944u},{-252,227503750272334u},{-252,269997720506817u},{-252,372504794482631u},{-252,662506882903225u},{-252,745009588965262u},{-252,1079990882027268u},{-252,1162493588089305u},{-252,7877520826404379u},{-252,9877467647148699u},{-252,9940088477955304u},{-252,11857532592637587u},{-252,15755041652808758u},{-252,19652550712979929u},{-252,23715065185275174u},{-252,31510083305617516u},{-252,39305101425959858u},{-252,43202610486131029u},{-252,63020166611235032u},{-252,78610202851919716u},{-252,86405220972262058u},{-252,94860260741100696u},{-252,97767737328527423u},{-252,106222777097366061u},{-252,126040333222470064u},{-252,137402849578735429u},{-252,157220405703839432u},{-252,212445554194732122u},{-252,263443182801205493u},{-252,334258367532782867u},{-252,526886365602410986u},{-252,617519106459092363u},{-252,668516735065565734u},{-252,861144733135193853u},{-252,1042410214848556607u},{-252,1053772731204821972u},{-252,1235038212918184726u},{-252,1246400729274450091u},{-252,1337033470131131468u},{-252,2096182946053378579u},{-252,2481438942192634817u},{-252,2674066940262262936u},{-252,3433216416184510047u},{-252,4962877884385269634u},{-252,6107283356446772983u},{-252,6866432832369020094u},{-252,9925755768770539268u},
{-251,107502041321341u},{-251,109987275728270u},{-251,122511441889591u},{-251,132501376580645u},{-251,149996011555824u},{-251,215004082642682u},{-251,232498717617861u},{-251,265002753161290u},{-251,347505459223327u},{-251,382494729173685u},{-251,464997435235722u},{-251,530005506322580u},{-251,612508212384617u},{-251,984866015677234u},{-251,987057267704135u},{-251,995198929811654u},{-251,997390181838555u},{-251,1377497670731987u},{-251,1542503082856061u},{-251,1707508494980135u},{-251,2437508683377147u},{-251,3085006165712122u},{-251,3732503648047097u},{-251,4875017366754294u},{-251,6170012331424244u},{-251,7147520638007367u},{-251,8112504778429169u},{-251,9432548075421761u},{-251,9750034733508588u},{-251,10067521391595415u},{-251,12022538004761661u},{-251,14295041276014734u},{-251,17862539511937757u},{-251,30862585823282541u},{-251,1001237765972559750u},{-251,1003510269243812823u},{-251,1005782772515065896u},{-251,1520571455115747295u},{-251,1525116461658253441u},{-251,1529661468200759587u},{-251,2291083447394259771u},{-251,3050232923316506882u},{-251,3818472412323766285u},{-251,4582166894788519542u},{-251,5341316370710766653u},{-251,6100465846633013764u},{-251,7636944824647532570u},{-251,8405184313654791973u},{-251,9164333789577039084u},{-251,9923483265499286195u},
{-250,106001101264516u},{-250,152997891669474u},{-250,188503807326553u},{-250,212002202529032u},{-250,305995783338948u},{-250,341501698996027u},{-250,424004405058064u},{-250,553503901525059u},{-250,683003397992054u},{-250,789521144963291u},{-250,848008810116128u},{-250,906496475268965u},{-250,964984140421802u},{-250,1107007803050118u},{-250,1366006795984108u},{-250,2013504278319083u},{-250,2531502264187063u},{-250,4027008556638166u},{-250,5263515856155279u},{-250,8054017113276332u},{-250,8254528441057485u},{-250,10326520384529405u},{-250,10527031712310558u},{-250,13835530955299591u},{-250,100123776597255975u},{-250,100391041921497501u},{-250,100524923922018298u},{-250,304114291023149459u},{-250,308659297565655605u},{-250,461852694712856871u},{-250,608228582046298918u},{-250,763694482464753257u},{-250,905525363255689158u},{-250,923705389425713742u},{-250,1216457164092597836u},{-250,1371923064511052175u},{-250,1527388964929506514u},{-250,1984696653099857239u},{-250,2743846129022104350u},{-250,3054777929859013028u},{-250,3969393306199714478u},{-250,5039474582958870267u},{-250,6109555859718026056u},{-250,7938786612399428956u},{-250,8387004287484767389u},
{-249,113205613537276u},{-249,119893480103315u},{-249,139105512830675u},{-249,145793379396714u},{-249,181299295053793u},{-249,233099093640591u},{-249,284898892227389u},{-249,362598590107586u},{-249,466198187281182u},{-249,569797784454778u},{-249,718509313649133u},{-249,725197180215172u},{-249,925708507996325u},{-249,932396374562364u},{-249,1126219835777478u},{-249,1132907702343517u},{-249,1139595568909556u},{-249,1650905688211497u},{-249,2065304076905881u},{-249,2479702465600265u},{-249,3301811376422994u},{-249,4130608153811762u},{-249,5988713036370451u},{-249,8876126024099061u},{-249,10025566389057650u},{-249,10025815727457684u},{-249,10052442524521823u},{-249,20024755319451195u},{-249,61731859513131121u},{-249,86916531091563999u},{-249,96006544176576291u},{-249,123463719026262242u},{-249,150920893875948193u},{-249,160010906960960485u},{-249,246927438052524484u},{-249,274384612902210435u},{-249,301841787751896386u},{-249,521312050954734919u},{-249,548769225804420870u},{-249,704235126222875209u},{-249,759149475922247111u},{-249,1042624101909469838u},{-249,1097538451608841740u},{-249,1152452801308213642u},{-249,1207367151007585544u},{-249,2195076903217683480u},{-249,2533465878904278109u},{-249,3265158179976839269u},{-249,3941936131350028527u},{-249,5066931757808556218u},{-249,5405320733495150847u},{-249,6530316359953678538u},{-249,9008867889158584745u},
{-248,111284410264540u},{-248,117972276830579u},{-248,141026716103411u},{-248,147714582669450u},{-248,185141701599265u},{-248,229256687095119u},{-248,332856284268715u},{-248,370283403198530u},{-248,495940493120053u},{-248,703139687467245u},{-248,740566806397060u},{-248,991880986240106u},{-248,1002431969705748u},{-248,1002556638905765u},{-248,1002681308105782u},{-248,1406279374934490u},{-248,1443706493864305u},{-248,1983761972480212u},{-248,2849985868798795u},{-248,2887412987728610u},{-248,3967523944960424u},{-248,4004951063890239u},{-248,5699971737597590u},{-248,5737398856527405u},{-248,7972475008850663u},{-248,8009902127780478u},{-248,11399943475195180u},{-248,11437370594124995u},{-248,15982377136631141u},{-248,16019804255560956u},{-248,22837314069320175u},{-248,22874741188249990u},{-248,32002181392192097u},{-248,32039608511121912u},{-248,36547187934698243u},{-248,36622042172557873u},{-248,45749482376499980u},{-248,54876922580442087u},{-248,64004362784384194u},{-248,73094375869396486u},{-248,73244084345115746u},{-248,82296670311198223u},{-248,91498964752999960u},{-248,100551550719082437u},{-248,109753845160884174u},{-248,118956139602685911u},{-248,128008725568768388u},{-248,164593340622396446u},{-248,173795635064198183u},{-248,219507690321768348u},{-248,393303325385966531u},{-248,439015380643536696u},{-248,484727435901106861u},{-248,832318706029503227u},{-248,878030761287073392u},{-248,923742816544643557u},{-248,969454871802213722u},{-248,1006264049569420670u},{-248,1015166927059783887u},{-248,1024069804550147104u},{-248,1710349467316576619u},{-248,1756061522574146784u},{-248,1801773577831716949u},{-248,1847485633089287114u},{-248,2387127418689765877u},{-248,2478551529204906207u},{-248,3512123045148293568u},{-248,3603547155663433898u},{-248,4774254837379531754u},{-248,5990674574353199775u},{-248,7207094311326867796u},{-248,8332089937785395487u},{-248,8697786379845956807u},{-248,9548509674759063508u},{-248,9914206116819624828u},
{-247,100193329290568u},{-247,100317998490585u},{-247,118171666135560u},{-247,125657089921523u},{-247,133142513707486u},{-247,148113361279412u},{-247,155598785065375u},{-247,163084208851338u},{-247,258799603629009u},{-247,266285027414972u},{-247,273770451200935u},{-247,288741298772861u},{-247,296226722558824u},{-247,303712146344787u},{-247,547540902401870u},{-247,555026326187833u},{-247,562511749973796u},{-247,577482597545722u},{-247,584968021331685u},{-247,592453445117648u},{-247,1117538076161629u},{-247,1125023499947592u},{-247,1132508923733555u},{-247,1147479771305481u},{-247,1154965195091444u},{-247,1162450618877407u},{-247,2257532423681147u},{-247,2265017847467110u},{-247,2272503271253073u},{-247,2287474118824999u},{-247,2294959542610962u},{-247,2302444966396925u},{-247,4545006542506146u},{-247,4552491966292109u},{-247,4559977390078072u},{-247,4574948237649998u},{-247,4582433661435961u},{-247,4589919085221924u},{-247,9090013085012292u},{-247,9104983932584218u},{-247,9119954780156144u},{-247,9149896475299996u},{-247,9164867322871922u},{-247,9179838170443848u},{-247,18269851255456140u},{-247,18299792950599992u},{-247,27457174849685951u},{-247,36599585901199984u},{-247,45741996952714017u},{-247,82341582853914001u},{-247,91483993905428034u},{-247,100147337834640435u},{-247,100267104615215843u},{-247,100386871395791251u},{-247,100626404956942067u},{-247,100746171737517475u},{-247,100865938518092883u},{-247,905577761222190899u},{-247,942147405428247031u},{-247,978717049634303163u},{-247,1124995626458527691u},{-247,1161565270664583823u},{-247,1198134914870639955u},{-247,1234704559076696087u},{-247,1271274203282752219u},{-247,2323130541329167646u},{-247,2396269829741279910u},{-247,2469409118153392174u},{-247,3649259210921004063u},{-247,4792539659482559820u},{-247,5935820108044115577u},{-247,7298518421842008126u},{-247,8295520293579339355u},{-247,9585079318965119640u},
{-246,102022756694411u},{-246,109508180480374u},{-246,116993604266337u},{-246,124479028052300u},{-246,131964451838263u},{-246,211530937174785u},{-246,219016360960748u},{-246,226501784746711u},{-246,233987208532674u},{-246,241472632318637u},{-246,248958056104600u},{-246,438032721921496u},{-246,445518145707459u},{-246,453003569493422u},{-246,460488993279385u},{-246,467974417065348u},{-246,475459840851311u},{-246,868580020057029u},{-246,876065443842992u},{-246,883550867628955u},{-246,920977986558770u},{-246,928463410344733u},{-246,935948834130696u},{-246,1812014277973688u},{-246,1826985125545614u},{-246,1841955973117540u},{-246,3653970251091228u},{-246,5503411647994731u},{-246,7307940502182456u},{-246,12811352150177187u},{-246,14615881004364912u},{-246,25622704300354374u},{-246,34765115351868407u},{-246,60387819652222781u},{-246,69530230703736814u},{-246,78672641755250847u},{-246,84205995098389430u},{-246,86130290733152563u},{-246,98642225931891230u},{-246,100566521566654363u},{-246,118851343669682429u},{-246,120775639304445562u},{-246,139060461407473628u},{-246,157345283510501694u},{-246,203057338768071859u},{-246,239626982974127991u},{-246,276196627180184123u},{-246,479253965948255982u},{-246,700596126819355907u},{-246,958507931896511964u},{-246,1216419736973668021u},{-246,1401192253638711814u},{-246,1659104058715867871u},{-246,1917015863793023928u},{-246,2174927668870179985u},{-246,2432839473947336042u},{-246,3318208117431735742u},{-246,3834031727586047856u},{-246,4349855337740359970u},{-246,7668063455172095712u},
{-245,107068646227803u},{-245,114554070013766u},{-245,122039493799729u},{-245,146768478381939u},{-245,154253902167902u},{-245,161739325953865u},{-245,184195597311754u},{-245,191681021097717u},{-245,199166444883680u},{-245,338449499479656u},{-245,353420347051582u},{-245,368391194623508u},{-245,383362042195434u},{-245,398332889767360u},{-245,706840694103164u},{-245,736782389247016u},{-245,766724084390868u},{-245,1006257645541684u},{-245,1007863074653005u},{-245,1009468503764326u},{-245,1112659007656487u},{-245,1473564778494032u},{-245,1834470549331577u},{-245,2225318015312974u},{-245,2586223786150519u},{-245,2947129556988064u},{-245,6616070655651218u},{-245,7337882197326308u},{-245,8059693739001398u},{-245,8420599509838943u},{-245,8901272061251896u},{-245,9383550041776170u},{-245,9864222593189123u},{-245,11307845676539303u},{-245,16119387478002796u},{-245,16841199019677886u},{-245,19728445186378246u},{-245,24539986987841739u},{-245,27427233154542099u},{-245,33682398039355772u},{-245,47155678340920345u},{-245,54854466309084198u},{-245,62553254277248051u},{-245,67364796078711544u},{-245,75063584046875397u},{-245,94311356681840690u},{-245,102010144650004543u},{-245,109708932618168396u},{-245,117407720586332249u},{-245,169374940728716087u},{-245,184772516665043793u},{-245,250213017108992204u},{-245,273309381013483763u},{-245,338749881457432174u},{-245,434985533774035997u},{-245,773735415231468171u},{-245,869971067548071994u},{-245,966206719864675817u},{-245,1000852068435968816u},{-245,1027797023609986641u},{-245,1035497417007261815u},{-245,1643706482779540165u},{-245,1739942135096143988u},{-245,1836177787412747811u},{-245,1932413439729351634u},{-245,3383648617875684153u},{-245,3479884270192287976u},{-245,3576119922508891799u},{-245,3672355574825495622u},{-245,4607767142817516027u},{-245,4800238447450723673u},{-245,6959768540384575952u},{-245,7152239845017783598u},{-245,8830591676368616762u},{-245,9215534285635032054u},{-245,9600476894901447346u},{-245,9985419504167862638u},
{-244,101589022020961u},{-244,102656676601761u},{-244,129391460763092u},{-244,159333155906944u},{-244,201572614930601u},{-244,246485157646379u},{-244,318666311813888u},{-244,390847465981397u},{-244,841578322250498u},{-244,938355004177617u},{-244,985940630585516u},{-244,1082717312512635u},{-244,1227079620847653u},{-244,1371441929182671u},{-244,1876710008355234u},{-244,2165434625025270u},{-244,7121338734823781u},{-244,8276237201503925u},{-244,9431135668184069u},{-244,10586034134864213u},{-244,11740932601544357u},{-244,12895831068224501u},{-244,16552474403007850u},{-244,18862271336368138u},{-244,27715957771212135u},{-244,37724542672736276u},{-244,43113533707539841u},{-244,55431915542424270u},{-244,60820906577227835u},{-244,80838076380276117u},{-244,100855246183324399u},{-244,102394040519490377u},{-244,104705442881961986u},{-244,116252822119652105u},{-244,161676152760552234u},{-244,167065143795355799u},{-244,232505644239304210u},{-244,237894635274107775u},{-244,328741296555908033u},{-244,561246940795212243u},{-244,657482593111816066u},{-244,753718245428419889u},{-244,844564906710220147u},{-244,930022576957216840u},{-244,951578541096431100u},{-244,1037036211343427793u},{-244,1314965186223632132u},{-244,1507436490856839778u},{-244,2352001397567059925u},{-244,3292801956593883895u},{-244,4704002795134119850u},{-244,6585603913187767790u},{-244,7248475497334387421u},{-244,7804333447094796099u},{-244,9408005590268239700u},
{-243,136983650007135u},{-243,141902755559057u},{-243,146821861110979u},{-243,151740966662901u},{-243,216543462502527u},{-243,283805511118114u},{-243,355986665285623u},{-243,433086925005054u},{-243,644711281955659u},{-243,711973330571246u},{-243,789073590290677u},{-243,866173850010108u},{-243,943274109729539u},{-243,1289422563911318u},{-243,1655247440300785u},{-243,1732347700020216u},{-243,3310494880601570u},{-243,4388293087562283u},{-243,5543191554242427u},{-243,6620989761203140u},{-243,7698787968163853u},{-243,10006979472412820u},{-243,10010190330635462u},{-243,10162785420963003u},{-243,10315380511290544u},{-243,10471186459840727u},{-243,11086383108484854u},{-243,12164181315445567u},{-243,13241979522406280u},{-243,14319777729366993u},{-243,22172766216969708u},{-243,23250564423930421u},{-243,24328362630891134u},{-243,25406160837851847u},{-243,44345532433939416u},{-243,45423330640900129u},{-243,46501128847860842u},{-243,47578927054821555u},{-243,48656725261782268u},{-243,49734523468742981u},{-243,86535468453957406u},{-243,88691064867878832u},{-243,90846661281800258u},{-243,95157854109643110u},{-243,97313450523564536u},{-243,99469046937485962u},{-243,186004515391443368u},{-243,190315708219286220u},{-243,280084571294125765u},{-243,284395764121968617u},{-243,470400279513411985u},{-243,658560391318776779u},{-243,842409310296298721u},{-243,940800559026823970u},{-243,1039191807757349219u},{-243,1218729533907028309u},{-243,1317120782637553558u},{-243,1881601118053647940u},{-243,2634241565275107116u},{-243,3763202236107295880u},{-243,5268483130550214232u},{-243,6872155273723657833u},{-243,7526404472214591760u},{-243,8180653670705525687u},{-243,9882717062609494537u},
{-242,102037436944897u},{-242,109586920005708u},{-242,117136403066519u},{-242,129263342213396u},{-242,204074873889794u},{-242,211624356950605u},{-242,331049488060157u},{-242,408149747779588u},{-242,500348973620641u},{-242,662098976120314u},{-242,908498721400229u},{-242,1000697947241282u},{-242,1030895879484526u},{-242,1032501308595847u},{-242,1324197952240628u},{-242,1816997442800458u},{-242,1909196668641511u},{-242,2556196678640203u},{-242,2648395904481256u},{-242,3633994885600916u},{-242,3726194111441969u},{-242,5296791808962512u},{-242,6374590015923225u},{-242,7452388222883938u},{-242,9515785410964311u},{-242,10593583617925024u},{-242,11671381824885737u},{-242,12749180031846450u},{-242,19031570821928622u},{-242,21187167235850048u},{-242,38063141643857244u},{-242,56016914258825153u},{-242,60328107086668005u},{-242,76126283287714488u},{-242,85457670246996693u},{-242,94080055902682397u},{-242,102702441558368101u},{-242,112033828517650306u},{-242,120656214173336010u},{-242,129987601132618215u},{-242,152252566575428976u},{-242,188160111805364794u},{-242,224067657035300612u},{-242,259975202265236430u},{-242,277928974880204339u},{-242,304505133150857952u},{-242,376320223610729588u},{-242,448135314070601224u},{-242,474711472341254837u},{-242,582434108031062291u},{-242,752640447221459176u},{-242,922846786411856061u},{-242,1039900809060945720u},{-242,1066476967331599333u},{-242,1164868216062124582u},{-242,1505280894442918352u},{-242,1845693572823712122u},{-242,2329736432124249164u},{-242,3010561788885836704u},{-242,3691387145647424244u},{-242,4005223665757564401u},{-242,5026461700899945711u},{-242,6021123577771673408u},{-242,7015785454643401105u},{-242,8377436168166576185u},{-242,9318945728496996656u},{-242,9685934565148444039u},
{-241,102126330481660u},{-241,103731759592981u},{-241,120019536504501u},{-241,126380208775414u},{-241,169299485560484u},{-241,175660157831397u},{-241,246399745279915u},{-241,344959643391881u},{-241,492799490559830u},{-241,584998716400883u},{-241,689919286783762u},{-241,782118512624815u},{-241,880678410736781u},{-241,985598981119660u},{-241,1274918003184645u},{-241,1669157595632509u},{-241,2260516984304305u},{-241,2549836006369290u},{-241,3338315191265018u},{-241,4810352990673595u},{-241,5099672012738580u},{-241,7754428589490749u},{-241,8333066633620719u},{-241,9620705981347190u},{-241,10199344025477160u},{-241,12065621417333601u},{-241,22264965442810761u},{-241,24131242834667202u},{-241,25997520226523643u},{-241,48262485669334404u},{-241,50128763061190845u},{-241,51995040453047286u},{-241,53861317844903727u},{-241,66216258284302313u},{-241,69948813068015195u},{-241,100257526122381690u},{-241,103990080906094572u},{-241,107722635689807454u},{-241,139897626136030390u},{-241,173938893974109767u},{-241,207980161812189144u},{-241,238288874866555639u},{-241,306371410542714393u},{-241,374453946218873147u},{-241,476577749733111278u},{-241,612742821085428786u},{-241,870142744655212274u},{-241,941509560330420471u},{-241,953155499466222556u},{-241,964801438602024641u},{-241,1130826948224045205u},{-241,1403157090928680221u},{-241,1675487233633315237u},{-241,2083982447690267761u},{-241,2806314181857360442u},{-241,3350974467266630474u},{-241,4345636344138358171u},{-241,5612628363714720884u},{-241,6701948934533260948u},{-241,8513601239518893693u},{-241,8691272688276716342u},
{-240,122088281096907u},{-240,132895319540022u},{-240,156423702524963u},{-240,197119796223932u},{-240,254983600636929u},{-240,312847405049926u},{-240,394239592447864u},{-240,452103396860861u},{-240,509967201273858u},{-240,567831005686855u},{-240,625694810099852u},{-240,730615380482731u},{-240,788479184895728u},{-240,846342989308725u},{-240,1019934402547716u},{-240,1077798206960713u},{-240,1135662011373710u},{-240,1808413587443444u},{-240,1924141196269438u},{-240,2039868805095432u},{-240,2155596413921426u},{-240,3848282392538876u},{-240,4079737610190864u},{-240,5830287393221311u},{-240,8159475220381728u},{-240,10025752612238169u},{-240,10488663047542145u},{-240,10503298698182682u},{-240,13989762613603039u},{-240,20051505224476338u},{-240,27979525227206078u},{-240,40103010448952676u},{-240,55959050454412156u},{-240,77876833070744935u},{-240,80206020897905352u},{-240,111918100908824312u},{-240,114247288735984729u},{-240,158082853968650287u},{-240,226165389644809041u},{-240,316165707937300574u},{-240,452330779289618082u},{-240,634660603701761565u},{-240,722331734167092681u},{-240,726990109821413515u},{-240,904661558579236164u},{-240,1086991382991379647u},{-240,1269321207403523130u},{-240,2173982765982759294u},{-240,2716313863564868909u},{-240,3440974785559122007u},{-240,5432627727129737818u},{-240,5974958824711847433u},{-240,6881949571118244014u},{-240,7788940317524640595u},{-240,9958264707853079055u},
{-239,100597755005633u},{-239,104920570382879u},{-239,109243385760125u},{-239,113566201137371u},{-239,117889016514617u},{-239,122211831891863u},{-239,169268597861745u},{-239,227132402274742u},{-239,289319022064985u},{-239,338537195723490u},{-239,454264804549484u},{-239,503482978207989u},{-239,627856217788475u},{-239,677074391446980u},{-239,908529609098968u},{-239,957747782757473u},{-239,1006965956415978u},{-239,1041548479433946u},{-239,1056184130074483u},{-239,1354148782893960u},{-239,1817059218197936u},{-239,2097732609508429u},{-239,3914791827706365u},{-239,4195465219016858u},{-239,5500395828252313u},{-239,6061742610873299u},{-239,6623089393494285u},{-239,8671603829344209u},{-239,9794297394586181u},{-239,9878098091262654u},{-239,12123485221746598u},{-239,15575366614148987u},{-239,21917782616332779u},{-239,24246970443493196u},{-239,31150733228297974u},{-239,33479921055458391u},{-239,43835565232665558u},{-239,46164753059825975u},{-239,62301466456595948u},{-239,64630654283756365u},{-239,87671130465331116u},{-239,90000318292491533u},{-239,92329506119651950u},{-239,94658693946812367u},{-239,124602932913191896u},{-239,126932120740352313u},{-239,145398021964282703u},{-239,180000636584983066u},{-239,219261626860004263u},{-239,253864241480704626u},{-239,290796043928565406u},{-239,360001273169966132u},{-239,399262263444987329u},{-239,507728482961409252u},{-239,581592087857130812u},{-239,759263536614953461u},{-239,798524526889974658u},{-239,976195975647797307u},{-239,1015456965922818504u},{-239,1054717956197839701u},{-239,1093978946472860898u},{-239,1123923185439240427u},{-239,1557788063504928119u},{-239,1991652941570615811u},{-239,2247846370878480854u},{-239,2642450258669147349u},{-239,3115576127009856238u},{-239,3983305883141231622u},{-239,4890296629547628203u},{-239,6231152254019712476u},{-239,7572007878491796749u},{-239,7966611766282463244u},{-239,8991385483513923416u},{-239,9228945410204505123u},{-239,9543033332404674699u},{-239,9780593259095256406u},
{-238,102289962162666u},{-238,104685970117084u},{-238,107081978071502u},{-238,115727608825994u},{-238,125571243557695u},{-238,135414878289396u},{-238,145258513021097u},{-238,155102147752798u},{-238,231455217651988u},{-238,251142487115390u},{-238,270829756578792u},{-238,290517026042194u},{-238,502284974230780u},{-238,541659513157584u},{-238,782958365541273u},{-238,822332904468077u},{-238,920769251785087u},{-238,925820870607952u},{-238,999518329638695u},{-238,1083319026315168u},{-238,1324617878698857u},{-238,1565916731082546u},{-238,2407936905014025u},{-238,2649235757397714u},{-238,2890534609781403u},{-238,3131833462165092u},{-238,3934479097169767u},{-238,5298471514795428u},{-238,5781069219562806u},{-238,7868958194339534u},{-238,9232950611965195u},{-238,10596943029590856u},{-238,11562138439125612u},{-238,12926130856751273u},{-238,18465901223930390u},{-238,23523073886342129u},{-238,25852261713502546u},{-238,36931802447860780u},{-238,41988975110272519u},{-238,51704523427005092u},{-238,64148056578988987u},{-238,73863604895721560u},{-238,93693498537277611u},{-238,103409046854010184u},{-238,103807843862101089u},{-238,167557103432999171u},{-238,187386997074555222u},{-238,295853216590977145u},{-238,414034984424131641u},{-238,512785655623820991u},{-238,945852939673326873u},{-238,946650533689508683u},{-238,2760632026502301845u},{-238,2918473581618568443u},{-238,4338249983648786015u},{-238,5521264053004603690u},{-238,5836947163237136886u},{-238,7019961232592954561u},{-238,7177802787709221159u},{-238,8676499967297572030u},{-238,9543830926420856509u},
{-237,100456994846156u},{-237,140841857537533u},{-237,200913989692312u},{-237,280673391310493u},{-237,401827979384624u},{-237,481587381002805u},{-237,803655958769248u},{-237,883415360387429u},{-237,963174762005610u},{-237,1042934163623791u},{-237,1366013065154807u},{-237,1766830720774858u},{-237,1846590122393039u},{-237,1926349524011220u},{-237,3613420843167897u},{-237,3693180244786078u},{-237,3772939646404259u},{-237,7226841686335794u},{-237,7306601087953975u},{-237,7386360489572156u},{-237,7466119891190337u},{-237,7545879292808518u},{-237,14772720979144312u},{-237,14852480380762493u},{-237,29545441958288624u},{-237,29625201359906805u},{-237,59090883916577248u},{-237,59170643318195429u},{-237,118261527234772677u},{-237,118341286636390858u},{-237,236682573272781716u},{-237,315443832027678653u},{-237,552126405300460369u},{-237,867649996729757203u},{-237,1104252810600920738u},{-237,1340855624472084273u},{-237,1735299993459514406u},{-237,2208505621201841476u},{-237,2681711248944168546u},{-237,3470599986919028812u},{-237,4417011242403682952u},{-237,5442502794249706753u},{-237,5915708421992033823u},{-237,6941199973838057624u},{-237,8834022484807365904u},{-237,9859514036653389705u},
{-236,111865227018368u},{-236,143971052418555u},{-236,192634952401122u},{-236,241298852383689u},{-236,272394354019303u},{-236,305510503184063u},{-236,385269904802244u},{-236,465029306420425u},{-236,482597704767378u},{-236,611021006368126u},{-236,690780407986307u},{-236,770539809604488u},{-236,850299211222669u},{-236,1009818014459031u},{-236,1044954811152937u},{-236,1089577416077212u},{-236,1381560815972614u},{-236,1461320217590795u},{-236,1541079619208976u},{-236,2842881033563409u},{-236,2922640435181590u},{-236,3002399836799771u},{-236,3082159238417952u},{-236,5845280870363180u},{-236,5925040271981361u},{-236,6004799673599542u},{-236,11770321142344541u},{-236,11850080543962722u},{-236,11929839945580903u},{-236,23540642284689082u},{-236,23620401686307263u},{-236,23700161087925444u},{-236,23779920489543625u},{-236,47240803372614526u},{-236,47400322175850888u},{-236,63120670166183003u},{-236,78601739951660575u},{-236,78920777558133299u},{-236,94481606745229052u},{-236,94800644351701776u},{-236,110361473538797529u},{-236,126241340332366006u},{-236,157841555116266598u},{-236,173402384303362351u},{-236,205162117890499305u},{-236,220722947077595058u},{-236,252482680664732012u},{-236,268043509851827765u},{-236,331243939419628949u},{-236,425885064968094363u},{-236,520526190516559777u},{-236,662487878839257898u},{-236,741568175200627559u},{-236,851770129936188726u},{-236,930850426297558387u},{-236,1009930722658928048u},{-236,1041052381033119554u},{-236,1072174039407311060u},{-236,1089011019020297709u},{-236,1120132677394489215u},{-236,1214773802942954629u},{-236,1593338305136816285u},{-236,1971902807330677941u},{-236,2539749560621470425u},{-236,3186676610273632570u},{-236,3943805614661355882u},{-236,4969297166507379683u},{-236,5079499121242940850u},{-236,6483555175282826307u},{-236,7887611229322711764u},{-236,9497786514072514698u},{-236,9607988468808075865u},{-236,9718190423543637032u},
{-235,101649738646183u},{-235,101930382268940u},{-235,110574259631038u},{-235,115176841934844u},{-235,177087201583315u},{-235,186011722568170u},{-235,292264043518159u},{-235,372023445136340u},{-235,433933804784811u},{-235,504768685418137u},{-235,584528087036318u},{-235,664287488654499u},{-235,921414735478752u},{-235,929777969218093u},{-235,1089296772454455u},{-235,1169056174072636u},{-235,1248815575690817u},{-235,2258352946527091u},{-235,2338112348145272u},{-235,2417871749763453u},{-235,4676224696290544u},{-235,4755984097908725u},{-235,4835743499526906u},{-235,9352449392581088u},{-235,9511968195817450u},{-235,9671486999053812u},{-235,12496518990647511u},{-235,12656037793883873u},{-235,12815556597120235u},{-235,15720347990332115u},{-235,19023936391634900u},{-235,22008487186464961u},{-235,25312075587767746u},{-235,28296626382597807u},{-235,28456145185834169u},{-235,31440695980664230u},{-235,41032423578099861u},{-235,53608701970365553u},{-235,72473119558764091u},{-235,82064847156199722u},{-235,101248302351070984u},{-235,107217403940731106u},{-235,110840029948506615u},{-235,113186505530391228u},{-235,154537966714963813u},{-235,164129694312399444u},{-235,214434807881462212u},{-235,224026535478897843u},{-235,318667661027363257u},{-235,438461343360360055u},{-235,448053070957795686u},{-235,507949912124294085u},{-235,637335322054726514u},{-235,766720731985158943u},{-235,896106141915591372u},{-235,944064779902769527u},{-235,977532913858845646u},{-235,1015899824248588170u},{-235,1274670644109453028u},{-235,1533441463970317886u},{-235,2031799648497176340u},{-235,2549341288218906056u},{-235,3177084882676196939u},{-235,4063599296994352680u},{-235,5208884531173373279u},{-235,6354169765352393878u},{-235,8016996639253144193u},{-235,8127198593988705360u},
{-234,141669761266652u},{-234,148809378054536u},{-234,217859354490891u},{-234,297618756109072u},{-234,435718708981782u},{-234,515478110599963u},{-234,791678016345383u},{-234,871437417963564u},{-234,951196819581745u},{-234,1030956221199926u},{-234,1110715622818107u},{-234,1902393639163490u},{-234,2563111319424047u},{-234,3144069598066423u},{-234,3804787278326980u},{-234,4465504958587537u},{-234,5126222638848094u},{-234,6288139196132846u},{-234,7609574556653960u},{-234,8931009917175074u},{-234,10252445277696188u},{-234,10594125351484021u},{-234,12576278392265692u},{-234,15219149113307920u},{-234,19525135268659095u},{-234,22168005989701323u},{-234,25152556784531384u},{-234,34744284381967015u},{-234,39050270537318190u},{-234,59896841166498399u},{-234,69488568763934030u},{-234,87692268672072011u},{-234,99630471851392255u},{-234,101589982424858817u},{-234,157180837436006041u},{-234,175384537344144022u},{-234,203179964849717634u},{-234,276974519769002839u},{-234,350769074688288044u},{-234,406359929699435268u},{-234,553949039538005678u},{-234,591336194641014921u},{-234,737945549192852050u},{-234,812719859398870536u},{-234,887494169604889022u},{-234,922921814134431703u},{-234,997696124340450189u},{-234,1107898079076011356u},{-234,1182672389282029842u},{-234,1292874344017591009u},{-234,1625439718797741072u},{-234,3250879437595482144u},{-234,6021604390572243815u},{-234,6501758875190964288u},
{-233,124759195873936u},{-233,134999382767265u},{-233,190239363916349u},{-233,380478727832698u},{-233,480718503237537u},{-233,760957455665396u},{-233,961437006475074u},{-233,1020716034306597u},{-233,1043358501621706u},{-233,1079995062138120u},{-233,1102637529453229u},{-233,1521914911330792u},{-233,3043829822661584u},{-233,3905027053731819u},{-233,5226462414252933u},{-233,6087659645323168u},{-233,6948856876393403u},{-233,7810054107463638u},{-233,8671251338533873u},{-233,9236053430446493u},{-233,9473169541772585u},{-233,9710285653098677u},{-233,10452924828505866u},{-233,12175319290646336u},{-233,13897713752786806u},{-233,15620108214927276u},{-233,17342502677067746u},{-233,27795427505573612u},{-233,31240216429854552u},{-233,40831944027290183u},{-233,55590855011147224u},{-233,70349765995004265u},{-233,73794554919285205u},{-233,81663888054580366u},{-233,95443043751704126u},{-233,103312376886999287u},{-233,111181710022294448u},{-233,132830198854713369u},{-233,140699531990008530u},{-233,147589109838570410u},{-233,273529730844721899u},{-233,303047552812435981u},{-233,421118840683292309u},{-233,598225772489576801u},{-233,606095105624871962u},{-233,842237681366584618u},{-233,850107014501879779u},{-233,1078380257108297274u},{-233,1086249590243592435u},{-233,1094118923378887596u},{-233,1204320878114448763u},{-233,2172499180487184870u},{-233,2408641756228897526u},{-233,3376820058601633633u},{-233,4337129027839074579u},{-233,5785461814830531159u},{-233,6753640117203267266u},{-233,9603089692374409460u},{-233,9634567024915590104u},{-233,9666044357456770748u},
{-232,105200687573551u},{-232,107999506213812u},{-232,110798324854073u},{-232,128479880000470u},{-232,187758907831993u},{-232,215999012427624u},{-232,316238787832463u},{-232,372718997023725u},{-232,460238129450879u},{-232,573198547833403u},{-232,632477575664926u},{-232,745437994047450u},{-232,804717021878973u},{-232,920476258901758u},{-232,974157649452759u},{-232,985352924013803u},{-232,1894633908354517u},{-232,2239112800782611u},{-232,2583591693210705u},{-232,3789267816709034u},{-232,7578535633418068u},{-232,8558290920151349u},{-232,9936206489863725u},{-232,11314122059576101u},{-232,12692037629288477u},{-232,14069953199000853u},{-232,14758910983857041u},{-232,17514742123281793u},{-232,25384075258576954u},{-232,28139906398001706u},{-232,29517821967714082u},{-232,42898817381858747u},{-232,56279812796003412u},{-232,59035643935428164u},{-232,85797634763717494u},{-232,101536301034307816u},{-232,104690292456711663u},{-232,112559625592006824u},{-232,115713617014410671u},{-232,118071287870856328u},{-232,163725936392139827u},{-232,171595269527434988u},{-232,217249918048718487u},{-232,236142575741712656u},{-232,244011908877007817u},{-232,335321205919574815u},{-232,434499836097436974u},{-232,480154484618720473u},{-232,670642411839149630u},{-232,678511744974444791u},{-232,868999672194873948u},{-232,928831636696260302u},{-232,944570302966850624u},{-232,960308969237440946u},{-232,976047635508031268u},{-232,991786301778621590u},{-232,1547511417169318739u},{-232,1737999344389747896u},{-232,2126844531965901371u},{-232,2507820386406759685u},{-232,2888796240847617999u},{-232,3475998688779495792u},{-232,5015640772813519370u},{-232,6364794929627113791u},{-232,9444079097695160947u},
{-231,102783904000376u},{-231,115759237022785u},{-231,149087598809490u},{-231,218543141023161u},{-231,298175197618980u},{-231,437086282046322u},{-231,516718338642141u},{-231,596350395237960u},{-231,794540507496825u},{-231,874172564092644u},{-231,953804620688463u},{-231,1033436677284282u},{-231,1113068733880101u},{-231,1192700790475920u},{-231,1987241297972745u},{-231,2066873354568564u},{-231,3974482595945490u},{-231,4054114652541309u},{-231,7948965191890980u},{-231,8108229305082618u},{-231,10465900161528275u},{-231,10625164274719913u},{-231,10784428387911551u},{-231,10943692501103189u},{-231,11102956614294827u},{-231,13380995414144665u},{-231,18733393579802531u},{-231,26761990828289330u},{-231,29597454024309901u},{-231,37466787159605062u},{-231,40302250355625633u},{-231,67064241183914963u},{-231,88473833846546427u},{-231,94781816691354121u},{-231,95706110529075036u},{-231,99178630177862159u},{-231,134128482367829926u},{-231,176947667693092854u},{-231,233307112545692085u},{-231,268256964735659852u},{-231,466614225091384170u},{-231,501564077281351937u},{-231,536513929471319704u},{-231,863328745802832806u},{-231,898278597992800573u},{-231,933228450182768340u},{-231,1003128154562703874u},{-231,1038078006752671641u},{-231,1073027858942639408u},{-231,2006256309125407748u},{-231,2663358461437221075u},{-231,4012512618250815496u},{-231,5326716922874442150u},{-231,5983819075186255477u},{-231,7437822788569753199u},{-231,8025025236501630992u},
{-230,119270079047592u},{-230,158908101499365u},{-230,238540158095184u},{-230,264846835832275u},{-230,397448259594549u},{-230,477080316190368u},{-230,715264462593279u},{-230,794896519189098u},{-230,874528575784917u},{-230,954160632380736u},{-230,1033792688976555u},{-230,1059387343329100u},{-230,1139019399924919u},{-230,1589793038378196u},{-230,2093180032305655u},{-230,2676199082828933u},{-230,3179586076756392u},{-230,3682973070683851u},{-230,5352398165657866u},{-230,9194635349533355u},{-230,10704796331315732u},{-230,14547033515191221u},{-230,16560581490901057u},{-230,18389270699066710u},{-230,21409592662631464u},{-230,25251829846506953u},{-230,36963400165677603u},{-230,46661422509138417u},{-230,85638370650525856u},{-230,93322845018276834u},{-230,120588222840493623u},{-230,128272697208244601u},{-230,186645690036553668u},{-230,221595542226521435u},{-230,373291380073107336u},{-230,532671692287444215u},{-230,657102152311813327u},{-230,746582760146214672u},{-230,975862776740487085u},{-230,1065343384574888430u},{-230,1154823992409289775u},{-230,1314204304623626654u},{-230,1722445536886701757u},{-230,2130686769149776860u},{-230,3853132306036478617u},{-230,4261373538299553720u},{-230,4669614770562628823u},{-230,9697151972462863026u},{-230,9898427176164741918u},{-230,9904118001024059237u},
{-229,100819803462401u},{-229,105938734332910u},{-229,111057665203419u},{-229,122007550328983u},{-229,127126481199492u},{-229,206758537795311u},{-229,211877468665820u},{-229,249134031528475u},{-229,254252962398984u},{-229,413517075590622u},{-229,418636006461131u},{-229,423754937331640u},{-229,498268063056950u},{-229,672888968860115u},{-229,837272012922262u},{-229,955584679149828u},{-229,976060402631864u},{-229,996536126113900u},{-229,1510160981782377u},{-229,1674544025844524u},{-229,1838927069906671u},{-229,2177931019771983u},{-229,2506697107896277u},{-229,3349088051689048u},{-229,3677854139813342u},{-229,5013394215792554u},{-229,5855785159585325u},{-229,7355708279626684u},{-229,7869333135295161u},{-229,10869179375377879u},{-229,11711570319170650u},{-229,14711416559253368u},{-229,21738358750755758u},{-229,22580749694548529u},{-229,44319108445304287u},{-229,45161499389097058u},{-229,70742095323728305u},{-229,88638216890608574u},{-229,106534338457488843u},{-229,123588069080576341u},{-229,141484190647456610u},{-229,159380312214336879u},{-229,213068676914977686u},{-229,230964798481857955u},{-229,318760624428673758u},{-229,354552867562434296u},{-229,390345110696194834u},{-229,426137353829955372u},{-229,461929596963715910u},{-229,515617961664356717u},{-229,780690221392389668u},{-229,852274707659910744u},{-229,923859193927431820u},{-229,951864006819825341u},{-229,967438867302559375u},{-229,988704552644610728u},{-229,1296308183056746385u},{-229,1704549415319821488u},{-229,2184375133850417667u},{-229,2592616366113492770u},{-229,3000857598376567873u},{-229,6001715196753135746u},{-229,6409956429016210849u},{-229,6818197661279285952u},
{-228,134577793772023u},{-228,169501974932656u},{-228,199307225222780u},{-228,269155587544046u},{-228,339003949865312u},{-228,363690269284927u},{-228,398614450445560u},{-228,538311175088092u},{-228,632845856828973u},{-228,797228900891120u},{-228,887552986694422u},{-228,891763582632001u},{-228,982087668435303u},{-228,986298264372882u},{-228,1076622350176184u},{-228,1171157031917065u},{-228,1265691713657946u},{-228,2342314063834130u},{-228,3842237183875489u},{-228,4684628127668260u},{-228,5716088434942793u},{-228,6463944696994683u},{-228,7684474367750978u},{-228,8526865311543749u},{-228,9369256255336520u},{-228,10211647199129291u},{-228,10589785926092815u},{-228,11054038142922062u},{-228,11432176869885586u},{-228,14148419064745661u},{-228,21643824069014877u},{-228,25391526571149485u},{-228,28296838129491322u},{-228,46192959696371591u},{-228,53688364700640807u},{-228,56593676258982644u},{-228,92385919392743182u},{-228,95755483167914266u},{-228,97732290292597609u},{-228,113187352517965288u},{-228,146074284093383989u},{-228,184771838785486364u},{-228,259261636611349277u},{-228,369543677570972728u},{-228,518523273222698554u},{-228,706200423566526755u},{-228,739087355141945456u},{-228,938385751719141005u},{-228,971272683294559706u},{-228,1004159614869978407u},{-228,1037046546445397108u},{-228,1069933478020815809u},{-228,1412400847133053510u},{-228,1445287778708472211u},{-228,1665851860627719113u},{-228,2074093092890794216u},{-228,2482334325153869319u},{-228,4964668650307738638u},{-228,5372909882570813741u},{-228,5781151114833888844u},{-228,9521096068352402173u},{-228,9929337300615477276u},
{-227,134759460758609u},{-227,144633988526455u},{-227,159445780178224u},{-227,234231406383413u},{-227,318891560356448u},{-227,468462812766826u},{-227,637783120712896u},{-227,692819691382393u},{-227,936925625533652u},{-227,1125994989015414u},{-227,1181031559684911u},{-227,1873851251067304u},{-227,2117957185218563u},{-227,3747702502134608u},{-227,3991808436285867u},{-227,5078305314229897u},{-227,7495405004269216u},{-227,10156610628459794u},{-227,13061922186801631u},{-227,17896121566880269u},{-227,20313221256919588u},{-227,28052732195340063u},{-227,35792243133760538u},{-227,38697554692102375u},{-227,54176576568943325u},{-227,77395109384204750u},{-227,79323997205941551u},{-227,81252885027678352u},{-227,108353153137886650u},{-227,110282040959623451u},{-227,141240084713305351u},{-227,187677150343828201u},{-227,220564081919246902u},{-227,282480169426610702u},{-227,346325144755711303u},{-227,564960338853221404u},{-227,692650289511422606u},{-227,721679445443367705u},{-227,911285483608932707u},{-227,1100891521774497709u},{-227,1129920677706442808u},{-227,1414329734954790311u},{-227,1822570967217865414u},{-227,2230812199480940517u},{-227,4053383166698805931u},{-227,4461624398961881034u},{-227,9741564311665755991u},{-227,9854014836961848953u},{-227,9913906198041582868u},{-227,9973797559121316783u},
{-226,101592184767642u},{-226,115707190821164u},{-226,149571252410378u},{-226,176377810972831u},{-226,203184369535284u},{-226,299142504820756u},{-226,325949063383209u},{-226,352755621945662u},{-226,651898126766418u},{-226,842390943792771u},{-226,896004060917677u},{-226,958157899310129u},{-226,970729922426672u},{-226,982117550783400u},{-226,1113303436506483u},{-226,1303796253532836u},{-226,1792008121835354u},{-226,2226606873012966u},{-226,2417099690039319u},{-226,3774509060697061u},{-226,4453213746025932u},{-226,4834199380078638u},{-226,6001115933710027u},{-226,6382101567762733u},{-226,7549018121394122u},{-226,7739510938420475u},{-226,8906427492051864u},{-226,9668398760157276u},{-226,10835315313788665u},{-226,13931119689156855u},{-226,15479021876840950u},{-226,21670630627577330u},{-226,27862239378313710u},{-226,30958043753681900u},{-226,43341261255154660u},{-226,51461757827627841u},{-226,55724478756627420u},{-226,61916087507363800u},{-226,82419801581309741u},{-226,86682522510309320u},{-226,102923515655255682u},{-226,107186236584255261u},{-226,111448957513254840u},{-226,144335889088673541u},{-226,193868759094564581u},{-226,214372473168510522u},{-226,288671778177347082u},{-226,358708362257184063u},{-226,457774102268966143u},{-226,577343556354694164u},{-226,647380140434531145u},{-226,717416724514368126u},{-226,978679127901874017u},{-226,990657400117820800u},{-226,1294760280869062290u},{-226,1703001513132137393u},{-226,2041206161315375515u},{-226,2589520561738124580u},{-226,2857688625841525721u},{-226,3406003026264274786u},{-226,4630726723053500095u},{-226,6263691652105800507u},{-226,6812006052528549572u},{-226,8164824645261502060u},{-226,8713139045684251125u},{-226,9261453446107000190u},{-226,9809767846529749255u},
{-225,151824872203246u},{-225,157755565333573u},{-225,244105934151259u},{-225,375054940922379u},{-225,559617064818405u},{-225,678704685328871u},{-225,809653692099991u},{-225,881058888615878u},{-225,976423736605036u},{-225,1047828933120923u},{-225,1119234129636810u},{-225,1357409370657742u},{-225,1428814567173629u},{-225,1547902187684095u},{-225,2167063062757733u},{-225,2786223937831371u},{-225,3095804375368190u},{-225,4334126125515466u},{-225,5572447875662742u},{-225,6191608750736380u},{-225,6882174822325905u},{-225,7977686179441407u},{-225,8668252251030932u},{-225,9358818322620457u},{-225,10049384394209982u},{-225,10454329679735959u},{-225,11144895751325484u},{-225,11835461822915009u},{-225,12383217501472760u},{-225,17336504502061864u},{-225,22289791502650968u},{-225,24766435002945520u},{-225,34673009004123728u},{-225,44579583005301936u},{-225,49532870005891040u},{-225,60130010078658773u},{-225,69346018008247456u},{-225,79943158081015189u},{-225,98136524941267697u},{-225,99065740011782080u},{-225,99994955082296463u},{-225,129476028086906229u},{-225,169102324091619061u},{-225,258952056173812458u},{-225,368614936258362271u},{-225,408241232263075103u},{-225,517904112347624916u},{-225,627566992432174729u},{-225,737229872516724542u},{-225,816482464526150206u},{-225,926145344610700019u},{-225,1035808224695249832u},{-225,1145471104779799645u},{-225,1255133984864349458u},{-225,1632964929052300412u},{-225,1742627809136850225u},{-225,1852290689221400038u},{-225,1961953569305949851u},{-225,2071616449390499664u},{-225,3375592738189150637u},{-225,3485255618273700450u},{-225,3594918498358250263u},{-225,3704581378442800076u},{-225,3814244258527349889u},{-225,3923907138611899702u},{-225,6751185476378301274u},{-225,6860848356462851087u},{-225,6970511236547400900u},{-225,7409162756885600152u},{-225,7518825636970149965u},{-225,7628488517054699778u},
{-224,111923412963681u},{-224,130949006771120u},{-224,145277421864690u},{-224,223846825927362u},{-224,257200834828371u},{-224,309580437536819u},{-224,447693651854724u},{-224,585806866172629u},{-224,619160875073638u},{-224,757274089391543u},{-224,895387303709448u},{-224,1028803339313484u},{-224,1033500518027353u},{-224,1166916553631389u},{-224,1171613732345258u},{-224,1238321750147276u},{-224,1376434964465181u},{-224,1514548178783086u},{-224,2476643500294552u},{-224,2614756714612457u},{-224,2752869928930362u},{-224,4953287000589104u},{-224,5091400214907009u},{-224,5229513429224914u},{-224,9806038216571255u},{-224,9906574001178208u},{-224,10182800429814018u},{-224,19813148002356416u},{-224,29581608789216719u},{-224,30134061646488339u},{-224,39626296004712832u},{-224,79252592009425664u},{-224,89021052796285967u},{-224,98789513583146270u},{-224,149841628946534265u},{-224,229094220955959929u},{-224,348525561827370045u},{-224,458188441911919858u},{-224,567851321996469671u},{-224,697051123654740090u},{-224,806714003739289903u},{-224,916376883823839716u},{-224,1026039763908389529u},{-224,1104187450203271953u},{-224,1135702643992939342u},{-224,1213850330287821766u},{-224,1245365524077489155u},{-224,1284439367224930367u},{-224,1394102247309480180u},{-224,1503765127394029993u},{-224,1613428007478579806u},{-224,1723090887563129619u},{-224,2678541614534410547u},{-224,2788204494618960360u},{-224,2897867374703510173u},{-224,3007530254788059986u},{-224,3117193134872609799u},{-224,3226856014957159612u},{-224,5795734749407020346u},{-224,6015060509576119972u},{-224,9968046578054201628u},{-224,9974199702259744595u},{-224,9980352826465287562u},{-224,9994689243996898147u},
{-223,100062026703027u},{-223,104759205416896u},{-223,116221937491752u},{-223,149575946392761u},{-223,177198589256342u},{-223,204821232119923u},{-223,975626428233440u},{-223,985581215080811u},{-223,993294284249650u},{-223,8111102215045443u},{-223,8332083357954091u},{-223,8553064500862739u},{-223,10099932501223275u},{-223,10320913644131923u},{-223,19757902716629254u},{-223,20199865002446550u},{-223,29526363503489557u},{-223,29968325789306853u},{-223,39515805433258508u},{-223,49726228505936107u},{-223,59936651578613706u},{-223,69705112365474009u},{-223,99452457011872214u},{-223,108778955512915221u},{-223,119873303157227412u},{-223,139410224730948018u},{-223,189578415522701421u},{-223,198904914023744428u},{-223,249073104815497831u},{-223,278820449461896036u},{-223,388483329546445849u},{-223,498146209630995662u},{-223,557640898923792072u},{-223,667303779008341885u},{-223,776966659092891698u},{-223,886629539177441511u},{-223,997210691629525093u},{-223,997629248822423826u},{-223,998853611979135518u},{-223,1115281797847584144u},{-223,1334607558016683770u},{-223,1553933318185783396u},{-223,2230563595695168288u},{-223,2669215116033367540u},{-223,3236182513458202619u},{-223,3674834033796401871u},{-223,4461127191390336576u},{-223,6344049149829769411u},{-223,7349668067592803742u},{-223,8665622628607401498u},{-223,8922254382780673152u},{-223,9671241546370435829u},{-223,9927873300543707483u},
{-222,125185285686925u},{-222,152807928550506u},{-222,180430571414087u},{-222,828679285907430u},{-222,859835499974253u},{-222,939169857361754u},{-222,970326071428577u},{-222,1301797785791549u},{-222,1412288357245873u},{-222,1522778928700197u},{-222,1799005357336007u},{-222,2019986500244655u},{-222,2240967643153303u},{-222,3598010714672014u},{-222,4039973000489310u},{-222,5728487786370993u},{-222,6170450072188289u},{-222,6391431215096937u},{-222,7196021429344028u},{-222,8079946000978620u},{-222,9768460786860303u},{-222,10652385358494895u},{-222,11456975572741986u},{-222,12340900144376578u},{-222,13587452644440965u},{-222,16159892001957240u},{-222,19536921573720606u},{-222,22109360931236881u},{-222,29747344646398205u},{-222,41646282504957487u},{-222,50168190791753403u},{-222,59494689292796410u},{-222,73966066508871967u},{-222,83292565009914974u},{-222,97763942225990531u},{-222,99679213443662636u},{-222,99724200005150960u},{-222,133460755801668377u},{-222,181056507235905505u},{-222,195527884451981062u},{-222,204854382953024069u},{-222,266921511603336754u},{-222,328988640253649439u},{-222,362113014471811010u},{-222,471775894556360823u},{-222,533843023206673508u},{-222,595910151856986193u},{-222,815235912026085819u},{-222,819417531812096276u},{-222,939370169326711189u},{-222,943551789112721646u},{-222,1067686046413347016u},{-222,1320136180800608213u},{-222,1444270438101233583u},{-222,2135372092826694032u},{-222,2387822227213955229u},{-222,3140991010589728363u},{-222,3770025536664876127u},{-222,5276363103416422395u},{-222,6281982021179456726u},{-222,6534432155566717923u},{-222,7540051073329752254u},{-222,8545669991092786585u},
{-221,100148228549540u},{-221,120832914359108u},{-221,138113214317905u},{-221,155393514276702u},{-221,165735857181486u},{-221,238261442867445u},{-221,276226428635810u},{-221,403997300048931u},{-221,735469014411903u},{-221,807994600097862u},{-221,880520185783821u},{-221,1025571357155739u},{-221,1104905714543240u},{-221,1177431300229199u},{-221,1615989200195724u},{-221,2130477071698979u},{-221,2717490528888193u},{-221,3231978400391448u},{-221,3746466271894703u},{-221,4260954143397958u},{-221,5434981057776386u},{-221,5949468929279641u},{-221,6463956800782896u},{-221,6978444672286151u},{-221,9970656972267027u},{-221,9972420000515096u},{-221,9974183028763165u},{-221,9993150253011189u},{-221,9994913281259258u},{-221,10869962115552772u},{-221,11898937858559282u},{-221,12927913601565792u},{-221,23797875717118564u},{-221,36211301447181101u},{-221,47595751434237128u},{-221,60009177164299665u},{-221,72422602894362202u},{-221,82778077138411719u},{-221,95191502868474256u},{-221,107604928598536793u},{-221,120018354328599330u},{-221,132431780058661867u},{-221,289690411577448808u},{-221,314517263037573882u},{-221,326930688767636419u},{-221,376584391687886567u},{-221,653861377535272838u},{-221,753168783375773134u},{-221,955965214842784183u},{-221,1055272620683284479u},{-221,1154580026523784775u},{-221,1158761646309795232u},{-221,1253887432364285071u},{-221,1258069052150295528u},{-221,1709133998218557317u},{-221,2110545241366568958u},{-221,3418267996437114634u},{-221,3819679239585126275u},{-221,4221090482733137916u},{-221,7639358479170252550u},{-221,8040769722318264191u},
{-220,110490571454324u},{-220,122272179910899u},{-220,160237165679264u},{-220,190609154293956u},{-220,220981142908648u},{-220,278320734287261u},{-220,339064711516645u},{-220,381218308587912u},{-220,441962285817296u},{-220,484115882888563u},{-220,865334191476475u},{-220,968231765777126u},{-220,998299817000351u},{-220,999138722476312u},{-220,999977627952273u},{-220,2160849060313671u},{-220,8643396241254684u},{-220,8709113055239101u},{-220,9532293649644309u},{-220,10355474244049517u},{-220,11178654838454725u},{-220,12001835432859933u},{-220,12825016027265141u},{-220,13648196621670349u},{-220,22357309676909450u},{-220,24003670865719866u},{-220,25650032054530282u},{-220,37240277190187611u},{-220,48007341731439732u},{-220,58774406272691853u},{-220,62067128650312685u},{-220,74480554380375222u},{-220,85247618921627343u},{-220,96014683462879464u},{-220,106781748004131585u},{-220,113367192759373249u},{-220,117548812545383706u},{-220,124134257300625370u},{-220,131608599464256659u},{-220,170495237843254686u},{-220,192029366925758928u},{-220,230916005304756955u},{-220,252450134387261197u},{-220,302103837307511345u},{-220,340990475686509372u},{-220,422945372230515883u},{-220,461832010609513910u},{-220,522252778071016179u},{-220,604207674615022690u},{-220,763935847917025255u},{-220,923664021219027820u},{-220,1001437297977023874u},{-220,1005618917763034331u},{-220,1009800537549044788u},{-220,1013982157335055245u},{-220,1044505556142032358u},{-220,1126460452686038869u},{-220,1527871695834050510u},{-220,1929282938982062151u},{-220,2011237835526068662u},{-220,2654332148520089379u},{-220,3055743391668101020u},{-220,3457154634816112661u},{-220,4743343260804154095u},{-220,6111486783336202040u},{-220,8446362585252286289u},{-220,8921365485372283527u},{-220,9486686521608308190u},
{-219,107610217683281u},{-219,135625884606658u},{-219,173066838295295u},{-219,243236102289939u},{-219,271251769213316u},{-219,346133676590590u},{-219,374149343513967u},{-219,514487871503255u},{-219,692267353181180u},{-219,720283020104557u},{-219,851196261328585u},{-219,972944409159756u},{-219,1028975743006510u},{-219,1206755224684435u},{-219,1440566040209114u},{-219,2235730967690945u},{-219,3058911562096153u},{-219,4471461935381890u},{-219,6117823124192306u},{-219,6295602605870231u},{-219,8765144389085855u},{-219,8942923870763780u},{-219,9120703352441705u},{-219,12235646248384612u},{-219,12413425730062537u},{-219,12591205211740462u},{-219,17885847741527560u},{-219,21356349600826317u},{-219,24826851460125074u},{-219,42712699201652634u},{-219,46183201060951391u},{-219,49653702920250148u},{-219,60420767461502269u},{-219,92366402121902782u},{-219,100644553919663953u},{-219,100729641693923696u},{-219,120841534923004538u},{-219,152787169583405051u},{-219,184732804243805564u},{-219,241683069846009076u},{-219,305574339166810102u},{-219,369465608487611128u},{-219,483366139692018152u},{-219,611148678333620204u},{-219,738931216975222256u},{-219,930605024937625334u},{-219,948668652160830819u},{-219,966732279384036304u},{-219,1222297356667240408u},{-219,1495926061173649997u},{-219,1897337304321661638u},{-219,2444594713334480816u},{-219,2991852122347299994u},{-219,3794674608643323276u},{-219,4889189426668961632u},{-219,7589349217286646552u},{-219,7607412844509852037u},{-219,9778378853337923264u},
{-218,102897574300651u},{-218,110437803712859u},{-218,130913241224028u},{-218,138453470636236u},{-218,170239252265717u},{-218,205795148601302u},{-218,241351044936887u},{-218,276906941272472u},{-218,312462837608057u},{-218,340478504531434u},{-218,376034400867019u},{-218,411590297202604u},{-218,447146193538189u},{-218,482702089873774u},{-218,518257986209359u},{-218,680957009062868u},{-218,716512905398453u},{-218,752068801734038u},{-218,894292387076378u},{-218,929848283411963u},{-218,965404179747548u},{-218,1000960076083133u},{-218,1036515972418718u},{-218,1072071868754303u},{-218,1681917085146001u},{-218,1717472981481586u},{-218,1753028877817171u},{-218,1788584774152756u},{-218,1824140670488341u},{-218,1859696566823926u},{-218,3506057755634342u},{-218,3577169548305512u},{-218,3648281340976682u},{-218,7012115511268684u},{-218,7154339096611024u},{-218,10055946614540421u},{-218,10141034388800164u},{-218,10198170199882761u},{-218,10695952748580951u},{-218,14308678193222048u},{-218,21391905497161902u},{-218,81954896544006511u},{-218,85567621988647608u},{-218,89180347433288705u},
{-217,105809588716573u},{-217,112920767983690u},{-217,120031947250807u},{-217,1002676276663497u},{-217,1002922653609158u},{-217,1016898635197731u},{-217,1017145012143392u},{-217,3413612425161821u},{-217,3470501859298757u},{-217,3527391293435693u},{-217,3584280727572629u},{-217,3641170161709565u},{-217,3698059595846501u},{-217,6941003718597514u},{-217,7054782586871386u},{-217,7168561455145258u},{-217,7282340323419130u},{-217,10496839729101675u},{-217,10724397465649419u},{-217,14109565173742772u},{-217,14337122910290516u},{-217,17836069486657741u},{-217,21448794931298838u},{-217,31831855792126641u},{-217,35672138973315482u},{-217,67731552501989867u},{-217,71344277946630964u},{-217,74957003391272061u},
{-216,100095163804387u},{-216,100341540750048u},{-216,100587917695709u},{-216,101418848879546u},{-216,101665225825207u},{-216,101911602770868u},{-216,106667689006755u},{-216,120890047540989u},{-216,135112406075223u},{-216,614455164068041u},{-216,671344598204977u},{-216,728234032341913u},{-216,785123466478849u},{-216,870457617684253u},{-216,887573723314466u},{-216,984236485958125u},{-216,1342689196409954u},{-216,1456468064683826u},{-216,2099367945820335u},{-216,2912936129367652u},{-216,4198735891640670u},{-216,5012304075187987u},{-216,5825872258735304u},{-216,8039019072829511u},{-216,8397471783281340u},{-216,10024608150375974u},{-216,10383060860827803u},{-216,11651744517470608u},{-216,12010197227922437u},{-216,16436490856110851u},{-216,24020394455844874u},{-216,29260256267580605u},{-216,101873217870854374u},{-216,103307028712661690u},{-216,2773489657641862347u},{-216,2780715108531144541u},{-216,2787940559420426735u},{-216,4176491750963678457u},{-216,5561430217062289082u},{-216,6953594134050181901u},{-216,8352983501927356914u},{-216,9723471066247403151u},
{-215,111513145986221u},{-215,137692140767038u},{-215,142223585342340u},{-215,196847297191625u},{-215,223026291972442u},{-215,393694594383250u},{-215,419873589164067u},{-215,787389188766500u},{-215,839747178328134u},{-215,1093483909656695u},{-215,1145841899218329u},{-215,1679494356656268u},{-215,1933231087984829u},{-215,3358988713312536u},{-215,4732388349078609u},{-215,5852051253516121u},{-215,6717977426625072u},{-215,9464776698157218u},{-215,10032661366855583u},{-215,10181682119060876u},{-215,10330702871266169u},{-215,11704102507032242u},{-215,15316827951673339u},{-215,20661405742532338u},{-215,23408205014064484u},{-215,86407369166975742u},{-215,90020094611616839u},{-215,93632820056257936u},{-215,550362660994803153u},{-215,557588111884085347u},{-215,823737628769884181u},{-215,838188530548448569u},{-215,1100725321989606306u},{-215,1115176223768170694u},{-215,1384938466098610625u},{-215,2230352447536341388u},{-215,3061315527195507763u},{-215,4169266300074396263u},{-215,5277217072953284763u},{-215,6122631054391015526u},{-215,8338532600148792526u},{-215,9737921968025967539u},
{-214,104917913657467u},{-214,113778868273872u},{-214,122639822890277u},{-214,148616883136895u},{-214,157477837753300u},{-214,218696781931339u},{-214,306094720890195u},{-214,314955675506600u},{-214,428532609246273u},{-214,437393563862678u},{-214,629911351013200u},{-214,743488284752873u},{-214,874787127725356u},{-214,988364061465029u},{-214,1006085970697839u},{-214,1023807879930649u},{-214,1041529789163459u},{-214,1373399635766073u},{-214,1486976569505746u},{-214,1749574255450712u},{-214,1863151189190385u},{-214,2370624651847507u},{-214,4102476998065409u},{-214,6096927030228277u},{-214,6849276269597555u},{-214,7601625508966833u},{-214,8581128615815457u},{-214,9184457102979442u},{-214,9482498607390028u},{-214,10085827094554013u},{-214,12193854060456554u},{-214,13698552539195110u},{-214,15806579505097651u},{-214,20171654189108026u},{-214,23784379633749123u},{-214,31613159010195302u},{-214,36730582933574955u},{-214,73461165867149910u},{-214,92731450064683365u},{-214,99956900953965559u},{-214,107182351843247753u},{-214,114407802732529947u},{-214,121633253621812141u},{-214,128858704511094335u},{-214,158967165042551081u},{-214,173418066821115469u},{-214,214364703686495506u},{-214,228815605465059894u},{-214,276987693219722125u},{-214,387782770507610975u},{-214,498577847795499825u},{-214,553975386439444250u},{-214,775565541015221950u},{-214,845413981437730763u},{-214,997155695590999650u},{-214,1009200528899250911u},{-214,1054959302705257202u},{-214,1067004136013508463u},{-214,1107950772878888500u},{-214,1177799213301397313u},{-214,1551131082030443900u},{-214,1620979522452952713u},{-214,1994311391181999300u},{-214,2064159831604508113u},{-214,2215901545757777000u},{-214,2728930295331841213u},{-214,3615290913634952013u},{-214,4944831841089618213u},{-214,5457860590663682426u},{-214,7230581827269904026u},{-214,8629971195147079039u},{-214,8863606183031108000u},{-214,9656028694295207465u},{-214,9889663682179236426u},
{-213,100207144490221u},{-213,101979335413502u},{-213,103751526336783u},{-213,118893506509516u},{-213,122437888356078u},{-213,125982270202640u},{-213,129526652049202u},{-213,244875776712156u},{-213,251964540405280u},{-213,372630237838077u},{-213,379719001531201u},{-213,503929080810560u},{-213,624594778243357u},{-213,745260475676154u},{-213,858837409415827u},{-213,887192464188323u},{-213,979503106848624u},{-213,1249189556486714u},{-213,1369855253919511u},{-213,1490520951352308u},{-213,2619044810406225u},{-213,2739710507839022u},{-213,2860376205271819u},{-213,5358755318245247u},{-213,5479421015678044u},{-213,5600086713110841u},{-213,5720752410543638u},{-213,7104785191849397u},{-213,7346116586714991u},{-213,7587447981580585u},{-213,10717510636490494u},{-213,10958842031356088u},{-213,11200173426221682u},{-213,11441504821087276u},{-213,14692233173429982u},{-213,18546290012936673u},{-213,25771740902218867u},{-213,29384466346859964u},{-213,37092580025873346u},{-213,40463974075648849u},{-213,48172087754662231u},{-213,51543481804437734u},{-213,55397538643944425u},{-213,77556554101522195u},{-213,99715569559099965u},{-213,103086963608875468u},{-213,106458357658650971u},{-213,110795077287888850u},{-213,155113108203044390u},{-213,199431139118199930u},{-213,221590154575777700u},{-213,310226216406088780u},{-213,398862278236399860u},{-213,443180309151555400u},{-213,620452432812177560u},{-213,797724556472799720u},{-213,886360618303110800u},{-213,923935861118715334u},{-213,961511103934319868u},{-213,969694634924721625u},{-213,1240904865624355120u},{-213,1399389367877175013u},{-213,1595449112945599440u},{-213,1772721236606221600u},{-213,1931205738859041493u},{-213,2640294233501530133u},{-213,3349382728144018773u},{-213,4413015470107751733u},{-213,5280588467003060266u},{-213,6698765456288037546u},{-213,6857249958540857439u},{-213,7958457943320194933u},{-213,8826030940215503466u},{-213,9693603937110811999u},
{-212,100785816162112u},{-212,127754461125921u},{-212,140545578703482u},{-212,154723106089730u},{-212,201571632324224u},{-212,322237329757021u},{-212,403143264648448u},{-212,523808962081245u},{-212,644474659514042u},{-212,806286529296896u},{-212,926952226729693u},{-212,1047617924162490u},{-212,1168283621595287u},{-212,1288949319028084u},{-212,1517489596316117u},{-212,2095235848324980u},{-212,2336567243190574u},{-212,3034979192632234u},{-212,3612725444641097u},{-212,5250880738390011u},{-212,10406678014502347u},{-212,10501761476780022u},{-212,10596844939057697u},{-212,10691928401335372u},{-212,11079507728788885u},{-212,15511310820304439u},{-212,19943113911819993u},{-212,22159015457577770u},{-212,31022621640608878u},{-212,39886227823639986u},{-212,44318030915155540u},{-212,62045243281217756u},{-212,79772455647279972u},{-212,86515243746830978u},{-212,88636061830311080u},{-212,90756879913791182u},{-212,105302865154633245u},{-212,124090486562435512u},{-212,140757289886757677u},{-212,159544911294559944u},{-212,177272123660622160u},{-212,248180973124871024u},{-212,319089822589119888u},{-212,354544247321244320u},{-212,496361946249742048u},{-212,638179645178239776u},{-212,709088494642488640u},{-212,725755297966810805u},{-212,992723892499484096u},{-212,1009390695823806261u},{-212,1276359290356479552u},{-212,1293026093680801717u},{-212,1418176989284977280u},{-212,2285749986180285813u},{-212,3703926975465263093u},{-212,4838468566893244917u},{-212,7407853950930526186u},{-212,9409968539253816543u},{-212,9676937133786489834u},
{-211,104761792416249u},{-211,117552909993810u},{-211,123778484871784u},{-211,171490199921428u},{-211,190506892376963u},{-211,209523584832498u},{-211,228540277288033u},{-211,381013784753926u},{-211,400030477209461u},{-211,419047169664996u},{-211,438063862120531u},{-211,800060954418922u},{-211,819077646874457u},{-211,838094339329992u},{-211,857111031785527u},{-211,1009244571429807u},{-211,1028261263885342u},{-211,1047277956340877u},{-211,1638155293748914u},{-211,1657171986204449u},{-211,1676188678659984u},{-211,1695205371115519u},{-211,2215901545757777u},{-211,3314343972408898u},{-211,3352377357319968u},{-211,4431803091515554u},{-211,5568278903077745u},{-211,6628687944817796u},{-211,7765163756379987u},{-211,8863606183031108u},{-211,9924015224771159u},{-211,12196966847895541u},{-211,15530327512759974u},{-211,16590736554500025u},{-211,17727212366062216u},{-211,21060573030926649u},{-211,24393933695791082u},{-211,27727294360655515u},{-211,35454424732124432u},{-211,38787785396988865u},{-211,42121146061853298u},{-211,45454506726717731u},{-211,70908849464248864u},{-211,74242210129113297u},{-211,77575570793977730u},{-211,80908931458842163u},{-211,138484338263633295u},{-211,141817698928497728u},{-211,145151059593362161u},{-211,148484420258226594u},{-211,151817780923091027u},{-211,276968676527266590u},{-211,283635397856995456u},{-211,290302119186724322u},{-211,296968840516453188u},{-211,567270795713990912u},{-211,580604238373448644u},{-211,847572832906121935u},{-211,860906275565579667u},{-211,1087874542119879762u},{-211,1134541591427981824u},{-211,1428177071279570579u},{-211,1721812551131159334u},{-211,1988781145663832625u},{-211,2269083182855963648u},{-211,2562718662707552403u},{-211,2856354142559141158u},{-211,3977562291327665250u},{-211,5125437325415104806u},{-211,7127551913738395163u},{-211,8542395542358508010u},{-211,9076332731423854592u},{-211,9423301981913274275u},
{-210,101649004977262u},{-210,105452343468369u},{-210,991948948900125u},{-210,1083229072686693u},{-210,1098442426651121u},{-210,1113655780615549u},{-210,1128869134579977u},{-210,2196884853302242u},{-210,2227311561231098u},{-210,3318147310900005u},{-210,3348574018828861u},{-210,4454623122462196u},{-210,5545458872131103u},{-210,6636294621800010u},{-210,7757557079397773u},{-210,8909246244924392u},{-210,9939228578735587u},{-210,11090917744262206u},{-210,12242606909788825u},{-210,13272589243600020u},{-210,15515114158795546u},{-210,18848474823659979u},{-210,22181835488524412u},{-210,27696867652726659u},{-210,31030228317591092u},{-210,34363588982455525u},{-210,37696949647319958u},{-210,55393735305453318u},{-210,62060456635182184u},{-210,100787388616313337u},{-210,107454109946042203u},{-210,110787470610906636u},{-210,124120913270364368u},{-210,169514566581224387u},{-210,221574941221813272u},{-210,280302037192131023u},{-210,339029133162448774u},{-210,560604074384262046u},{-210,619331170354579797u},{-210,678058266324897548u},{-210,880906439554766265u},{-210,886299764887253088u},{-210,891693090219739911u},{-210,992967306162914944u},{-210,998360631495401767u},{-210,1473570724590430598u},{-210,1591024916531066100u},{-210,1708479108471701602u},{-210,1884660396382654855u},{-210,3182049833062132200u},{-210,3416958216943403204u},{-210,3769320792765309710u},{-210,5301618613326058059u},{-210,6833916433886806408u},{-210,7538641585530619420u},{-210,8131305870566283753u},{-210,9070939406091367769u},
{-209,198389789780025u},{-209,213603143744453u},{-209,228816497708881u},{-209,244029851673309u},{-209,427206287488906u},{-209,457632995417762u},{-209,663629462180001u},{-209,709269524073285u},{-209,854412574977812u},{-209,915265990835524u},{-209,1060409041740051u},{-209,1121262457597763u},{-209,1327258924360002u},{-209,2448521381957765u},{-209,2654517848720004u},{-209,4897042763915530u},{-209,5103039230677769u},{-209,5309035697440008u},{-209,6872717796491105u},{-209,10206078461355538u},{-209,10618071394880016u},{-209,13745435592982210u},{-209,17490789191371121u},{-209,27490871185964420u},{-209,31236224784353331u},{-209,62472449568706662u},{-209,79551245826553305u},{-209,90787306621720038u},{-209,94982070350302036u},{-209,100375395682788859u},{-209,159102491653106610u},{-209,176181287910953253u},{-209,200750791365577718u},{-209,318204983306213220u},{-209,376932079276530971u},{-209,611840463157801975u},{-209,636409966612426440u},{-209,729294655098437477u},{-209,753864158553061942u},{-209,778433662007686407u},{-209,1223680926315603950u},{-209,1248250429770228415u},{-209,1272819933224852880u},{-209,1297389436679477345u},{-209,1507728317106123884u},{-209,2002114588323290357u},{-209,2545639866449705760u},{-209,3015456634212247768u},{-209,4547754454772996117u},{-209,5536526997207329063u},{-209,6030913268424495536u},{-209,6574438546550910939u},{-209,8551983631419576831u},{-209,9095508909545992234u},{-209,9639034187672407637u},
{-208,109782623840866u},{-208,126640550850229u},{-208,141853904814657u},{-208,158711831824020u},{-208,236423174691095u},{-208,253281101700458u},{-208,283707809629314u},{-208,300565736638677u},{-208,317423663648040u},{-208,472846349382190u},{-208,489704276391553u},{-208,506562203400916u},{-208,567415619258628u},{-208,601131473277354u},{-208,773412086020867u},{-208,807127940039593u},{-208,979408552783106u},{-208,1013124406801832u},{-208,1046840260820558u},{-208,1374543559298221u},{-208,1786536492822699u},{-208,1958817105566212u},{-208,2749087118596442u},{-208,3333360664864433u},{-208,3917634211132424u},{-208,5498174237192884u},{-208,6666721329728866u},{-208,7835268422264848u},{-208,8074980743045813u},{-208,8898966610094769u},{-208,10996348474385768u},{-208,13333442659457732u},{-208,13573154980238697u},{-208,15910249165310661u},{-208,21992696948771536u},{-208,26906597639696429u},{-208,31820498330621322u},{-208,39071493206618179u},{-208,43985393897543072u},{-208,48899294588467965u},{-208,63640996661242644u},{-208,68554897352167537u},{-208,73229085722311465u},{-208,78142986413236358u},{-208,83056887104161251u},{-208,102712489867860823u},{-208,107626390558785716u},{-208,112540291249710609u},{-208,127281993322485288u},{-208,132195894013410181u},{-208,137109794704335074u},{-208,220166681808496325u},{-208,225080582499421218u},{-208,229994483190346111u},{-208,254563986644970576u},{-208,259477887335895469u},{-208,264391788026820362u},{-208,479644569144391794u},{-208,489472370526241580u},{-208,499300171908091366u},{-208,509127973289941152u},{-208,518955774671790938u},{-208,528783576053640724u},{-208,978944741052483160u},{-208,998600343816182732u},{-208,1018255946579882304u},{-208,1037911549343581876u},{-208,1057567152107281448u},{-208,1492986615033349205u},{-208,1532297820560748349u},{-208,1997200687632365464u},{-208,2036511893159764608u},{-208,2521070362995081295u},{-208,3064595641121496698u},{-208,3529498508193113813u},{-208,4073023786319529216u},{-208,5042140725990162590u},{-208,5585666004116577993u},{-208,7058997016386227626u},{-208,7602522294512643029u},{-208,8997230895727494374u},{-208,9311720539946687526u},{-208,9540756173853909777u},{-208,9855245818073102929u},
{-207,106164563142009u},{-207,108795880013905u},{-207,126969465459216u},{-207,141196075596683u},{-207,174911929615409u},{-207,189138539752876u},{-207,253938930918432u},{-207,378277079505752u},{-207,426219543661945u},{-207,852439087323890u},{-207,919870795361342u},{-207,967813259517535u},{-207,1752820638803973u},{-207,9588089061068821u},{-207,9683973989381207u},{-207,9779858917693593u},{-207,9875743846005979u},{-207,9971628774318365u},{-207,14645817144462293u},{-207,19559717835387186u},{-207,24473618526312079u},{-207,29291634288924586u},{-207,34205534979849479u},{-207,39119435670774372u},{-207,53861137743549051u},{-207,78238871341548744u},{-207,88066672723398530u},{-207,97894474105248316u},{-207,102424835082923665u},{-207,103191914509422753u},{-207,107722275487098102u},{-207,122463977559872781u},{-207,176133345446797060u},{-207,195788948210496632u},{-207,215444550974196204u},{-207,298597323006669841u},{-207,391577896420993264u},{-207,430889101948392408u},{-207,504214072599016259u},{-207,597194646013339682u},{-207,690175219427663105u},{-207,979711820478982248u},{-207,994069982838507383u},{-207,1008428145198032518u},{-207,1194389292026679364u},{-207,1737914570153094767u},{-207,2016856290396065036u},{-207,2932303862179774131u},{-207,4033712580792130072u},{-207,5864607724359548262u},{-207,7151977589800551049u},{-207,8067425161584260144u},{-207,9354795027025262931u},
{-206,120752558029850u},{-206,122545353308585u},{-206,170487817464778u},{-206,193562651903507u},{-206,293033170773363u},{-206,340975634929556u},{-206,681951269859112u},{-206,1315960075562031u},{-206,1363902539718224u},{-206,1898440826551287u},{-206,1994325754863673u},{-206,2967517400217413u},{-206,3988651509727346u},{-206,4818015762612507u},{-206,5935034800434826u},{-206,6764399053319987u},{-206,7977303019454692u},{-206,8806667272339853u},{-206,9636031525225014u},{-206,10019571238474558u},{-206,10465395778110175u},{-206,10848935491359719u},{-206,14741702072774679u},{-206,17613334544679706u},{-206,20484967016584733u},{-206,32355036617454385u},{-206,35226669089359412u},{-206,67581705706813797u},{-206,70453338178718824u},{-206,135163411413627594u},{-206,138035043885532621u},{-206,140906676357437648u},{-206,273198455299160215u},{-206,276070087771065242u},{-206,363307396241578611u},{-206,369050661185388665u},{-206,546396910598320430u},{-206,552140175542130484u},{-206,726614792483157222u},{-206,738101322370777330u},{-206,903961041896088987u},{-206,915447571783709095u},{-206,926934101671329203u},{-206,1092793821196640860u},{-206,1104280351084260968u},{-206,1281626600497192733u},{-206,1830895143567418190u},{-206,2385906951581453701u},{-206,2563253200994385466u},{-206,4216802095148871891u},{-206,5681518210002806443u},{-206,6413876267429773719u},{-206,8433604190297743782u},{-206,9343308497137642823u},
{-205,145261628691567u},{-205,193204092847760u},{-205,196072565293736u},{-205,244015029449929u},{-205,290523257383134u},{-205,341334193985303u},{-205,437219122297689u},{-205,488030058899858u},{-205,631857451368437u},{-205,682668387970606u},{-205,874438244595378u},{-205,925249181197547u},{-205,1015397164617981u},{-205,1026871054401885u},{-205,1066208101220150u},{-205,1077681991004054u},{-205,1117019037822319u},{-205,1263714902736874u},{-205,1850498362395094u},{-205,2093079155622035u},{-205,2284849012246807u},{-205,4186158311244070u},{-205,4428739104471011u},{-205,5985845737036995u},{-205,6471007323490877u},{-205,6956168909944759u},{-205,9060721955350698u},{-205,9100059002168963u},{-205,9139396048987228u},{-205,10070382175076727u},{-205,12942014646981754u},{-205,15813647118886781u},{-205,23012396822058481u},{-205,25884029293963508u},{-205,28755661765868535u},{-205,31627294237773562u},{-205,51768058587927016u},{-205,54639691059832043u},{-205,57511323531737070u},{-205,60382956003642097u},{-205,73810132237077733u},{-205,79553397180887787u},{-205,109279382119664086u},{-205,115022647063474140u},{-205,147620264474155466u},{-205,183089514356741819u},{-205,218558764239328172u},{-205,254028014121914525u},{-205,295240528948310932u},{-205,330709778830897285u},{-205,366179028713483638u},{-205,401648278596069991u},{-205,437117528478656344u},{-205,590481057896621864u},{-205,661419557661794570u},{-205,732358057426967276u},{-205,803296557192139982u},{-205,874235056957312688u},{-205,1016112056487658100u},{-205,1074554366145484669u},{-205,1145492865910657375u},{-205,1322839115323589140u},{-205,1464716114853934552u},{-205,2090666422633142769u},{-205,2232543422163488181u},{-205,2929432229707869104u},{-205,3555382537487077321u},{-205,4181332845266285538u},{-205,6484814767194946425u},{-205,7110765074974154642u},{-205,7736715382753362859u},{-205,8362665690532571076u},{-205,9213927687714643548u},{-205,9330812307030296686u},{-205,9839877995493851765u},{-205,9956762614809504903u},
{-204,100883865230063u},{-204,106620810122015u},{-204,146695864914555u},{-204,154563274278208u},{-204,205374210880377u},{-204,213241620244030u},{-204,293391729829110u},{-204,301259139192763u},{-204,418615831124407u},{-204,594650869021873u},{-204,602518278385526u},{-204,837231662248814u},{-204,845099071612467u},{-204,1197169147407399u},{-204,1674463324497628u},{-204,1682330733861281u},{-204,2394338294814798u},{-204,2402205704178451u},{-204,3348926648995256u},{-204,3356794058358909u},{-204,4788676589629596u},{-204,5751132353173707u},{-204,6713588116717818u},{-204,8630632234442387u},{-204,9577353179259192u},{-204,10555543761530609u},{-204,11502264706347414u},{-204,12448985651164219u},{-204,13427176233435636u},{-204,18207985413701579u},{-204,23004529412694828u},{-204,27801073411688077u},{-204,41212514826396407u},{-204,46009058825389656u},{-204,50805602824382905u},{-204,55602146823376154u},{-204,66141955766179457u},{-204,92018117650779312u},{-204,101611205648765810u},{-204,108301191537392669u},{-204,111204293646752308u},{-204,132283911532358914u},{-204,158160073416958769u},{-204,203222411297531620u},{-204,229098573182131475u},{-204,264567823064717828u},{-204,361382484714490389u},{-204,406444822595063240u},{-204,458197146364262950u},{-204,529135646129435656u},{-204,722764969428980778u},{-204,767827307309553629u},{-204,968146616497725610u},{-204,999828982601044743u},{-204,1058271292258871312u},{-204,1296962953438989285u},{-204,1535654614619107258u},{-204,1967975599098770353u},{-204,2593925906877978570u},{-204,3219876214657186787u},{-204,4084518183616512977u},{-204,5187851813755957140u},{-204,6439752429314373574u},{-204,8169036367233025954u},{-204,9272369997372470117u},
{-203,117356691931644u},{-203,162725886831571u},{-203,170593296195224u},{-203,234713383863288u},{-203,242580793226941u},{-203,333319183026795u},{-203,477294177090229u},{-203,666638366053590u},{-203,674505775417243u},{-203,765244165217097u},{-203,954588354180458u},{-203,1143932543143819u},{-203,1159667361871125u},{-203,1333276732107180u},{-203,1349011550834486u},{-203,1530488330434194u},{-203,9403743809023137u},{-203,9782432186949859u},{-203,10161120564876581u},{-203,10539808942803303u},{-203,10918497320730025u},{-203,11297185698656747u},{-203,15147008752833191u},{-203,20322241129753162u},{-203,25118785128746411u},{-203,30294017505666382u},{-203,35469249882586353u},{-203,45819714636426295u},{-203,70938499765172706u},{-203,81288964519012648u},{-203,91639429272852590u},{-203,93154182784559478u},{-203,96814661649772561u},{-203,162577929038025296u},{-203,183278858545705180u},{-203,193629323299545122u},{-203,259392590687797857u},{-203,325155858076050592u},{-203,366557717091410360u},{-203,453021913987342979u},{-203,518785181375595714u},{-203,584548448763848449u},{-203,757476842555713687u},{-203,774517293198180488u},{-203,889003377332219157u},{-203,906043827974685958u},{-203,1037570362751191428u},{-203,1169096897527696898u},{-203,1317663882946669169u},{-203,1449190417723174639u},{-203,2075140725502382856u},{-203,2355234245697860597u},{-203,3046947820865321549u},{-203,4150281451004765712u},{-203,4710468491395721194u},{-203,5813802121535165357u},{-203,6093895641730643098u},{-203,6637042231479131779u},{-203,7757416312261042743u},{-203,8300562902009531424u},{-203,9420936982791442388u},{-203,9964083572539931069u},
{-202,133327673210718u},{-202,141195082574371u},{-202,231933472374225u},{-202,266655346421436u},{-202,343966503879511u},{-202,463866944748450u},{-202,533310692842872u},{-202,687933007759022u},{-202,877277196722383u},{-202,927733889496900u},{-202,1066621385685744u},{-202,1117078078460261u},{-202,1805011086219283u},{-202,2183699464146005u},{-202,3180877101737327u},{-202,4367398928292010u},{-202,6361754203474654u},{-202,6790899274175893u},{-202,9163942927285259u},{-202,9290347841339396u},{-202,9694001383535532u},{-202,9921319683138703u},{-202,10779609824541181u},{-202,12723508406949308u},{-202,13581798548351786u},{-202,15525697130759913u},{-202,18327885854570518u},{-202,23503118231490489u},{-202,36655771709141036u},{-202,47006236462980978u},{-202,60158889940631525u},{-202,73311543418282072u},{-202,76972022283495155u},{-202,80859819448311409u},{-202,94012472925961956u},{-202,107165126403612503u},{-202,120317779881263050u},{-202,133470433358913597u},{-202,293246173673128288u},{-202,306398827150778835u},{-202,359009441061381023u},{-202,612797654301557670u},{-202,718018882122762046u},{-202,945501788407637599u},{-202,1050723016228841975u},{-202,1155944244050046351u},{-202,1172984694692513152u},{-202,1768741898351604021u},{-202,2101446032457683950u},{-202,5866412735445767545u},{-202,7197229271870087261u},{-202,8528045808294406977u},{-202,9560239111897580366u},
{-201,100368211077652u},{-201,104165622141633u},{-201,107963033205614u},{-201,119900440868939u},{-201,127495262996901u},{-201,185546777899380u},{-201,193141600027342u},{-201,254990525993802u},{-201,305447218768319u},{-201,371093555798760u},{-201,436739892829201u},{-201,742187111597520u},{-201,807833448627961u},{-201,873479785658402u},{-201,923936478432919u},{-201,959203526951512u},{-201,984695055456615u},{-201,1055229152493801u},{-201,1186521826554683u},{-201,1615666897255922u},{-201,1746959571316804u},{-201,2373043653109366u},{-201,2933481397871487u},{-201,3493919142633608u},{-201,3923064213334847u},{-201,5043939702859089u},{-201,6987838285267216u},{-201,7548276030029337u},{-201,7846128426669694u},{-201,9790027009077821u},{-201,12031777988126305u},{-201,14273528967174789u},{-201,15394404456699031u},{-201,19580054018155642u},{-201,24063555976252610u},{-201,28547057934349578u},{-201,30788808913398062u},{-201,39457960432951641u},{-201,48127111952505220u},{-201,56796263472058799u},{-201,61279765430155767u},{-201,78915920865903282u},{-201,96254223905010440u},{-201,113294674547477241u},{-201,113592526944117598u},{-201,113890379340757955u},{-201,114188231737398312u},{-201,122559530860311534u},{-201,140195686296059049u},{-201,192508447810020880u},{-201,210144603245768395u},{-201,227780758681515910u},{-201,245119061720623068u},{-201,262755217156370583u},{-201,402653051055789275u},{-201,420289206491536790u},{-201,437925361927284305u},{-201,490238123441246136u},{-201,683044423647907373u},{-201,840578412983073580u},{-201,947586755184120098u},{-201,961648681860183329u},{-201,980476246882492272u},{-201,999303811904801215u},{-201,1173282547089153509u},{-201,1488350525759485923u},{-201,1681156825966147160u},{-201,2346565094178307018u},{-201,3169507351725633083u},{-201,3362313651932294320u},{-201,4693130188356614036u},{-201,5516072445903940101u},{-201,6339014703451266166u},{-201,8563318119165902007u},{-201,9386260376713228072u},
{-200,115125477803609u},{-200,148437422319504u},{-200,181749366835399u},{-200,263562900123113u},{-200,296874844639008u},{-200,527125800246226u},{-200,593749689278016u},{-200,756399203852095u},{-200,858290141402478u},{-200,889646981915675u},{-200,1054251600492452u},{-200,1187499378556032u},{-200,1218856219069229u},{-200,1352103997132809u},{-200,2077146360471707u},{-200,2406355597625261u},{-200,2735564834778815u},{-200,3856440324303057u},{-200,4812711195250522u},{-200,5768982066197987u},{-200,6098191303351541u},{-200,7712880648606114u},{-200,8010733045246471u},{-200,9625422390501044u},{-200,10942259339115260u},{-200,11240111735755617u},{-200,11537964132395974u},{-200,12196382606703082u},{-200,15723613693852585u},{-200,19250844781002088u},{-200,22778075868151591u},{-200,27919996300555667u},{-200,31447227387705170u},{-200,34974458474854673u},{-200,42028920649153679u},{-200,45556151736303182u},{-200,69948916949709346u},{-200,73476148036858849u},{-200,77003379124008352u},{-200,84057841298307358u},{-200,87585072385456861u},{-200,91112303472606364u},{-200,95235239353036581u},{-200,97571060853624656u},{-200,99906882354212731u},{-200,154006758248016704u},{-200,161061220422315710u},{-200,168115682596614716u},{-200,175170144770913722u},{-200,182224606945212728u},{-200,322122440844631420u},{-200,336231365193229432u},{-200,350340289541827444u},{-200,507874278876993651u},{-200,672462730386458864u},{-200,794724408850130041u},{-200,851160106244522089u},{-200,959312860359595254u},{-200,1015748557753987302u},{-200,1180337009263452515u},{-200,1344925460772917728u},{-200,2525262470036370243u},{-200,2689850921545835456u},{-200,2854439373055300669u},
{-199,117967896254524u},{-199,131292674060882u},{-199,144617451867240u},{-199,151279840770419u},{-199,177929396383135u},{-199,204578951995851u},{-199,355858792766270u},{-199,547112966955763u},{-199,711717585532540u},{-199,902971759722033u},{-199,1009569982172897u},{-199,1094225933911526u},{-199,2188451867823052u},{-199,2379706042012545u},{-199,3144722738770517u},{-199,3909739435528489u},{-199,6289445477541034u},{-199,9518824168050180u},{-199,9775905154376378u},{-199,9985988468167795u},{-199,12578890955082068u},{-199,16106122042231571u},{-199,25157781910164136u},{-199,32212244084463142u},{-199,42793937345911651u},{-199,64424488168926284u},{-199,79000576817641911u},{-199,85587874691823302u},{-199,107218425514837935u},{-199,128848976337852568u},{-199,150479527160867201u},{-199,236067401852690503u},{-199,257697952675705136u},{-199,307546352195915793u},{-199,472134803705381006u},{-199,615092704391831586u},{-199,779681155901296799u},{-199,944269607410762012u},{-199,1022335855628168693u},{-199,1030791810702820544u},{-199,1108858058920227225u},{-199,1186924307137633906u},{-199,1195380262212285757u},{-199,2053127666330989237u},{-199,2217716117840454450u},{-199,2382304569349919663u},{-199,9710718639058447567u},{-199,9841483270269305376u},
{-198,111305507351345u},{-198,115693961493792u},{-198,137955062964061u},{-198,142343517106508u},{-198,146731971248955u},{-198,284687034213016u},{-198,378119894236539u},{-198,386896802521433u},{-198,475941208402509u},{-198,569374068426032u},{-198,662806928449555u},{-198,951882416805018u},{-198,975100010549389u},{-198,986990049944594u},{-198,1045315276828541u},{-198,1138748136852064u},{-198,1903764833610036u},{-198,1997197693633559u},{-198,3807529667220072u},{-198,7615059334440144u},{-198,14015491488574489u},{-198,14202357208621535u},{-198,14389222928668581u},{-198,14576088648715627u},{-198,21443685102967587u},{-198,28404714417243070u},{-198,28778445857337162u},{-198,35926340891659691u},{-198,42887370205935174u},{-198,49848399520210657u},{-198,78813711097594865u},{-198,85774740411870348u},{-198,92735769726145831u},{-198,121327349863435947u},{-198,157627422195189730u},{-198,171549480823740696u},{-198,221771611784045445u},{-198,278954772058625677u},{-198,379399033979235175u},{-198,443543223568090890u},{-198,557909544117251354u},{-198,722497995626716567u},{-198,887086447136181780u},{-198,970618798907487576u},{-198,990006961089937657u},{-198,1115819088234502708u},{-198,1280407539743967921u},{-198,1444995991253433134u},{-198,3219168885525796694u},{-198,3548345788544727120u},{-198,4042111143073122759u},{-198,4700464949110983611u},{-198,5358818755148844463u},{-198,8084222286146245518u},{-198,8321410882319218297u},{-198,9163741302048994443u},{-198,9400929898221967222u},
{-197,117385576999164u},{-197,132561385689911u},{-197,147737194380658u},{-197,265122771379822u},{-197,328204014021851u},{-197,358555631403345u},{-197,436812682736121u},{-197,530245542759644u},{-197,780192505448719u},{-197,873625365472242u},{-197,967058225495765u},{-197,1060491085519288u},{-197,1153923945542811u},{-197,1560385010897438u},{-197,2653605721677261u},{-197,2840471441724307u},{-197,4213990732574699u},{-197,5680942883448614u},{-197,7334760754369575u},{-197,8427981465149398u},{-197,10268665056117405u},{-197,10614422886709044u},{-197,11361885766897228u},{-197,15762742219518973u},{-197,21630550823014633u},{-197,22723771533794456u},{-197,31525484439037946u},{-197,44354322356809089u},{-197,50222130960304749u},{-197,63050968878075892u},{-197,75879806795847035u},{-197,88708644713618178u},{-197,96651000300663672u},{-197,97968009887463119u},{-197,98547631110636585u},{-197,126101937756151784u},{-197,151759613591694070u},{-197,177417289427236356u},{-197,303519227183388140u},{-197,354834578854472712u},{-197,493765354528395639u},{-197,709669157708945424u},{-197,771626905876241493u},{-197,976888312560579781u},{-197,987530709056791278u},{-197,998173105553002775u},{-197,1203434512237341063u},{-197,1419338315417890848u},{-197,2406869024474682126u},{-197,2622772827655231911u},{-197,2838676630835781696u},{-197,3281126633693092763u},{-197,3712934240054192333u},{-197,5245545655310463822u},{-197,6562253267386185526u},{-197,7425868480108384666u},{-197,8094864682642457015u},{-197,8958479895364656155u},
{-196,130330402457124u},{-196,136876327509231u},{-196,143422252561338u},{-196,149968177613445u},{-196,193411645099153u},{-196,286844505122676u},{-196,299936355226890u},{-196,386823290198306u},{-196,493348000326043u},{-196,693305570477303u},{-196,773646580396612u},{-196,986696000652086u},{-196,1067037010571395u},{-196,1147378020490704u},{-196,1199745420907560u},{-196,1466952150873915u},{-196,2053733011223481u},{-196,2933904301747830u},{-196,4107466022446962u},{-196,5867808603495660u},{-196,9308152755673747u},{-196,9838986397018407u},{-196,9870539825108910u},{-196,10481714476372879u},{-196,15175961359169407u},{-196,22217331683364199u},{-196,30351922718338814u},{-196,38486513753313429u},{-196,60703845436677628u},{-196,68838436471652243u},{-196,78226930237245299u},{-196,88869326733456796u},{-196,94496112307194529u},{-196,121407690873355256u},{-196,137676872943304486u},{-196,148319269439515983u},{-196,199634621110600555u},{-196,242815381746710512u},{-196,285996142382820469u},{-196,615173045401750895u},{-196,1057623048259061962u},{-196,1143984569531281876u},{-196,1230346090803501790u},{-196,1618972936528491403u},{-196,1791695979072931231u},{-196,1964419021617371059u},{-196,3237945873056982806u},{-196,3583391958145862462u},{-196,7166783916291724924u},{-196,8699395331547996413u},{-196,9886560661715388246u},{-196,9910901327964131085u},{-196,9935241994212873924u},
{-195,119616560231951u},{-195,119974542090756u},{-195,120332523949561u},{-195,186865720047046u},{-195,213407402114279u},{-195,239949084181512u},{-195,293390430174783u},{-195,346473794309249u},{-195,426814804228558u},{-195,479898168363024u},{-195,586780860349566u},{-195,773288598537807u},{-195,853629608457116u},{-195,987053982510891u},{-195,1173561720699132u},{-195,1360069458887373u},{-195,1893766955102473u},{-195,2160615703210023u},{-195,2347123441398264u},{-195,2533631179586505u},{-195,3787533910204946u},{-195,4694246882796528u},{-195,6321165089791451u},{-195,7761575558598133u},{-195,8507606511351097u},{-195,9388493765593056u},{-195,11015411972587979u},{-195,12642330179582902u},{-195,14269248386577825u},{-195,28538496773155650u},{-195,33419251394140419u},{-195,39926924222120111u},{-195,46434597050099803u},{-195,52942269878079495u},{-195,79853848444240222u},{-195,92869194100199606u},{-195,105884539756158990u},{-195,110019263424390795u},{-195,123034609080350179u},{-195,129542281908329871u},{-195,159707696888480444u},{-195,215903803180549785u},{-195,246069218160700358u},{-195,259084563816659742u},{-195,289249978796810315u},{-195,319415393776960888u},{-195,461973021341250143u},{-195,492138436321400716u},{-195,548334542613470057u},{-195,578499957593620630u},{-195,923946042682500286u},{-195,954111457662650859u},{-195,984276872642801432u},{-195,997435717189376794u},{-195,1096669085226940114u},{-195,1126834500207090687u},{-195,1156999915187241260u},{-195,1878057500345151145u},{-195,1908222915325301718u},{-195,2253669000414181374u},{-195,2283834415394331947u},{-195,3756115000690302290u},{-195,3786280415670452863u},{-195,3816445830650603436u},{-195,4507338000828362748u},{-195,4537503415808513321u},{-195,4567668830788663894u},{-195,7542395416360755153u},{-195,7572560831340905726u},{-195,7602726246321056299u},{-195,8954345171696424350u},{-195,9014676001656725496u},{-195,9075006831617026642u},{-195,9135337661577327788u},{-195,9195668491537628934u},
{-194,133424374053775u},{-194,159822863377486u},{-194,186794123675285u},{-194,239877487809751u},{-194,266848748107550u},{-194,346616987052771u},{-194,373588247350570u},{-194,506726235917301u},{-194,720205234403341u},{-194,959509951239004u},{-194,986481211536803u},{-194,1013452471834602u},{-194,1040423732132401u},{-194,1413439208508883u},{-194,1440410468806682u},{-194,2026904943669204u},{-194,2053876203967003u},{-194,2853849677315565u},{-194,4880754620984769u},{-194,5707699354631130u},{-194,8934564508323177u},{-194,9761509241969538u},{-194,10588453975615899u},{-194,11415398709262260u},{-194,12242343442908621u},{-194,20349963217585437u},{-194,21176907951231798u},{-194,22003852684878159u},{-194,22830797418524520u},{-194,42353815902463596u},{-194,43180760636109957u},{-194,44007705369756318u},{-194,57849995759362063u},{-194,86361521272219914u},{-194,88015410739512636u},{-194,98765692276915329u},{-194,99161096845796906u},{-194,99556501414678483u},{-194,99951905983560060u},{-194,115699991518724126u},{-194,172723042544439828u},{-194,201234568057297679u},{-194,231399983037448252u},{-194,375611500069030229u},{-194,432634551094745931u},{-194,462799966074896504u},{-194,751223000138060458u},{-194,781388415118211031u},{-194,804938272229190716u},{-194,835103687209341289u},{-194,865269102189491862u},{-194,925599932149793008u},{-194,955765347129943581u},{-194,985930762110094154u},{-194,1502446000276120916u},{-194,1532611415256271489u},{-194,1790869034339284870u},{-194,2397880517445763351u},{-194,3004892000552241832u},{-194,6677126314171263291u},{-194,7891149280384220253u},{-194,9105172246597177215u},
{-193,106739499243020u},{-193,122464038642429u},{-193,149435298940228u},{-193,213478998486040u},{-193,271899337582657u},{-193,298870597880456u},{-193,399986736674281u},{-193,570769935463113u},{-193,656161534857529u},{-193,799973473348562u},{-193,997727932435193u},{-193,1087597350330628u},{-193,1141539870926226u},{-193,1195482391521824u},{-193,1312323069715058u},{-193,1456135008206091u},{-193,2283079741852452u},{-193,3739214750058543u},{-193,4566159483704904u},{-193,8305374233763447u},{-193,9132318967409808u},{-193,9887201207873125u},{-193,9922919406589592u},{-193,9959472399639539u},{-193,9995190598356006u},{-193,11900777045330957u},{-193,16610748467526894u},{-193,18264637934819616u},{-193,23801554090661914u},{-193,28511525512857851u},{-193,52313079603519765u},{-193,57023051025715702u},{-193,83880687071280831u},{-193,95206216362647656u},{-193,104626159207039530u},{-193,114046102051431404u},{-193,134791574187190103u},{-193,144211517031581977u},{-193,179086903433928487u},{-193,288423034063163954u},{-193,358173806867856974u},{-193,467509937497092441u},{-193,716347613735713948u},{-193,886014574325250561u},{-193,935019874994184882u},{-193,1055681534914787174u},{-193,1104686835583721495u},{-193,1153692136252655816u},{-193,1432695227471427896u},{-193,1821034449319435443u},{-193,3642068898638870886u},{-193,4467752643003820301u},{-193,7284137797277741772u},{-193,8109821541642691187u},{-193,8935505286007640602u},
{-192,103365482973503u},{-192,112362859692215u},{-192,121339366552590u},{-192,152809315209745u},{-192,170783198788832u},{-192,188757082367919u},{-192,206730965947006u},{-192,269649993402979u},{-192,341566397577664u},{-192,377514164735838u},{-192,485378336068697u},{-192,575268623822469u},{-192,862892500804535u},{-192,970756672137394u},{-192,1330296953294145u},{-192,1546025295959863u},{-192,1941513344274788u},{-192,2049377515607647u},{-192,2660593906588290u},{-192,3271810297568933u},{-192,3703266982900369u},{-192,4098755031215294u},{-192,5141428107527373u},{-192,5321187813176580u},{-192,6363860889488659u},{-192,7586293671449945u},{-192,8017750356781381u},{-192,8197510062430588u},{-192,8377269768079795u},{-192,10462615920703953u},{-192,12727721778977318u},{-192,15172587342899890u},{-192,18660125983134541u},{-192,20925231841407906u},{-192,23190337699681271u},{-192,39585357824542447u},{-192,41850463682815812u},{-192,44115569541089177u},{-192,81435821507358259u},{-192,83700927365631624u},{-192,85966033223904989u},{-192,162871643014716518u},{-192,167401854731263248u},{-192,220937367116744299u},{-192,276737985360498715u},{-192,383809010131460817u},{-192,441874734233488598u},{-192,499940458335516379u},{-192,553475970720997430u},{-192,718612719593987313u},{-192,883749468466977196u},{-192,1005238156600659197u},{-192,1007287283677966800u},{-192,1272088690314984743u},{-192,1437225439187974626u},{-192,1602362188060964509u},{-192,3865271371613888550u},{-192,4030408120486878433u},{-192,8225952989846746749u},{-192,8886499985338706281u},{-192,9547046980830665813u},
{-191,122247452167796u},{-191,143811938491033u},{-191,172578500160907u},{-191,266059390658829u},{-191,345157000321814u},{-191,532118781317658u},{-191,690314000643628u},{-191,790976096629850u},{-191,884477856986109u},{-191,927606829632583u},{-191,1064237562635316u},{-191,1517258734289989u},{-191,1675453953615959u},{-191,2128475125270632u},{-191,2581496296925305u},{-191,4256950250541264u},{-191,4709971422195937u},{-191,5162992593850610u},{-191,8513900501082528u},{-191,8966921672737201u},{-191,9419942844391874u},{-191,10325985187701220u},{-191,10779006359355893u},{-191,11232027531010566u},{-191,25182182091949170u},{-191,53535512385481051u},{-191,55347597072099743u},{-191,57159681758718435u},{-191,100491685977107769u},{-191,100570700107337406u},{-191,100649714237567043u},{-191,100728728367796680u},{-191,100807742498026317u},{-191,100886756628255954u},{-191,110695194144199486u},{-191,163324664186371191u},{-191,166948833559608575u},{-191,221390388288398972u},{-191,274019858330570677u},{-191,386527137161388855u},{-191,442780776576797944u},{-191,607917525449787827u},{-191,773054274322777710u},{-191,825683744364949415u},{-191,885561553153595888u},{-191,945439361942242361u},{-191,1155957242110929181u},{-191,1215835050899575654u},{-191,1546108548645555420u},{-191,2041518795264525069u},{-191,2702065790756484601u},{-191,3092217097291110840u},{-191,4083037590529050138u},{-191,5404131581512969202u},{-191,5794282888047595441u},{-191,8166075181058100276u},{-191,9877320478576645579u},
{-190,110736653528179u},{-190,120811211070136u},{-190,142375697393373u},{-190,152450254935330u},{-190,158195219325970u},{-190,221473307056358u},{-190,294825952328703u},{-190,389743083924285u},{-190,516299259385061u},{-190,779486167848570u},{-190,832689698037001u},{-190,1032598518770122u},{-190,1085802048958553u},{-190,1179303809314812u},{-190,1232507339503243u},{-190,1612175865885571u},{-190,2065197037540244u},{-190,2518218209194917u},{-190,3677372903425815u},{-190,4130394075080488u},{-190,4583415246735161u},{-190,9166830493470322u},{-190,10018086976485218u},{-190,10072872836779668u},{-190,11431936351743687u},{-190,13244021038362379u},{-190,20145745673559336u},{-190,22863872703487374u},{-190,33389766711921715u},{-190,45727745406974748u},{-190,56253639415409089u},{-190,66779533423843430u},{-190,91455490813949496u},{-190,94733046075909069u},{-190,112507278830818178u},{-190,133559066847686860u},{-190,154610854864555542u},{-190,165136748872989883u},{-190,309221709729111084u},{-190,330273497745979766u},{-190,432254882568363603u},{-190,516462034635838331u},{-190,618443419458222168u},{-190,660546995491959532u},{-190,846735532381818097u},{-190,864509765136727206u},{-190,1032924069271676662u},{-190,1050698302026585771u},{-190,1236886838916444336u},{-190,2473773677832888672u},{-190,3608679131926949171u},{-190,3981056205706666301u},{-190,5506112966335353039u},{-190,7217358263853898342u},{-190,8928603561372443645u},
{-189,101811088864350u},{-189,107289674893795u},{-189,116481617918819u},{-189,121960203948264u},{-189,126556175460776u},{-189,155897233569714u},{-189,185238291678652u},{-189,238441821867083u},{-189,253112350921552u},{-189,311794467139428u},{-189,423680113545735u},{-189,482362229763611u},{-189,623588934278856u},{-189,735474580685163u},{-189,847360227091470u},{-189,1003074561733337u},{-189,1005388487550744u},{-189,1008553147762782u},{-189,1247177868557712u},{-189,1359063514964019u},{-189,1470949161370326u},{-189,1582834807776633u},{-189,2718127029928038u},{-189,2941898322740652u},{-189,3736055019643691u},{-189,3959826312456305u},{-189,4642097362953037u},{-189,5883796645481304u},{-189,6677953342384343u},{-189,7472110039287382u},{-189,8490038029003035u},{-189,9284194725906074u},{-189,12561749987865647u},{-189,13355906684768686u},{-189,14150063381671725u},{-189,21845944713771721u},{-189,26711813369537372u},{-189,31577682025303023u},{-189,48557758083309093u},{-189,53423626739074744u},{-189,58289495394840395u},{-189,63155364050606046u},{-189,69609546100177775u},{-189,79341283411709077u},{-189,89073020723240379u},{-189,97115516166618186u},{-189,106847253478149488u},{-189,116578990789680790u},{-189,126310728101212092u},{-189,139219092200355550u},{-189,176456799578327263u},{-189,213694506956298976u},{-189,464626721290569665u},{-189,501864428668541378u},{-189,1000350373600775766u},{-189,1002039615468929261u},{-189,1003728857337082756u},{-189,1005418099205236251u},{-189,1007107341073389746u},{-189,1008796582941543241u},{-189,1487819053250715025u},{-189,1636769882762601877u},{-189,1785720712274488729u},{-189,1934671541786375581u},{-189,2158097786054205859u},{-189,3273539765525203754u},{-189,3571441424548977458u},{-189,3869343083572751162u},{-189,5133735892555635909u},{-189,5729539210603183317u},{-189,7142882849097954916u},{-189,7738686167145502324u},{-189,8632391144216823436u},{-189,9449931464664047627u},
{-188,100076063591593u},{-188,100198554997222u},{-188,100562676491723u},{-188,100685167897352u},{-188,168376328212405u},{-188,169472045418294u},{-188,170567762624183u},{-188,224867010018503u},{-188,227058444430281u},{-188,338944090836588u},{-188,341135525248366u},{-188,454116888860562u},{-188,677888181673176u},{-188,791965262491261u},{-188,899468040074012u},{-188,908233777721124u},{-188,1017927989715653u},{-188,1246082151351823u},{-188,1583930524982522u},{-188,1698007605800607u},{-188,2035855979431306u},{-188,2830012676334345u},{-188,3167861049965044u},{-188,3396015211601214u},{-188,3733863585231913u},{-188,5660025352668690u},{-188,5997873726299389u},{-188,6792030423202428u},{-188,7129878796833127u},{-188,7467727170463826u},{-188,10982202331706681u},{-188,11320050705337380u},{-188,11657899078968079u},{-188,11995747452598778u},{-188,13921909220035555u},{-188,14259757593666254u},{-188,22977949784305459u},{-188,23315798157936158u},{-188,27843818440071110u},{-188,28181666813701809u},{-188,46293747942241617u},{-188,46631596315872316u},{-188,55687636880142220u},{-188,56025485253772919u},{-188,92925344258113933u},{-188,93263192631744632u},{-188,111375273760284440u},{-188,111713122133915139u},{-188,185850688516227866u},{-188,186188536889858565u},{-188,223426244267830278u},{-188,297563810650143005u},{-188,371701377032455732u},{-188,372377073779717130u},{-188,595127621300286010u},{-188,669940884429860135u},{-188,818216017194485589u},{-188,893704977071321112u},{-188,968518240200895237u},{-188,1190255242600572020u},{-188,1265068505730146145u},{-188,2455323748330718165u},{-188,2530137011460292290u},{-188,3943480649955063889u},{-188,4910647496661436330u},{-188,6919794453203755337u},{-188,7886961299910127778u},{-188,8854128146616500219u},
{-187,111885646406307u},{-187,134701062569924u},{-187,157516478733541u},{-187,383479205957933u},{-187,474740870612401u},{-187,566002535266869u},{-187,766958411915866u},{-187,794156696903039u},{-187,949481741224802u},{-187,1132005070533738u},{-187,1561115108818905u},{-187,2264010141067476u},{-187,2784381844007111u},{-187,4528020282134952u},{-187,4865868655765651u},{-187,5568763688014222u},{-187,9056040564269904u},{-187,9393888937900603u},{-187,10069585685162001u},{-187,10178378825110693u},{-187,11137527376028444u},{-187,18449929502170507u},{-187,18787777875801206u},{-187,22275054752056888u},{-187,37237707377971713u},{-187,44550109504113776u},{-187,59512762130028601u},{-187,74475414755943426u},{-187,87748825513704756u},{-187,89100219008227552u},{-187,90451612502750348u},{-187,104062871634142377u},{-187,119025524260057202u},{-187,133988176885972027u},{-187,148950829511886852u},{-187,163913482137801677u},{-187,208125743268284754u},{-187,223088395894199579u},{-187,238051048520114404u},{-187,253013701146029229u},{-187,267976353771944054u},{-187,282939006397858879u},{-187,446176791788399158u},{-187,461139444414313983u},{-187,476102097040228808u},{-187,506027402292058458u},{-187,520990054917973283u},{-187,535952707543888108u},{-187,892353583576798316u},{-187,922278888828627966u},{-187,952204194080457616u},{-187,1012054804584116916u},{-187,1041980109835946566u},{-187,1071905415087776216u},{-187,1964258998664574532u},{-187,2024109609168233832u},{-187,3021201761126435923u},{-187,3928517997329149064u},{-187,4955535454539180805u},{-187,8884053451868329869u},{-187,9911070909078361610u},
{-186,109694211994529u},{-186,111267145114784u},{-186,122506887927988u},{-186,124079821048243u},{-186,169710653375477u},{-186,195336005242395u},{-186,220961357109313u},{-186,312223021763781u},{-186,390672010484790u},{-186,441922714218626u},{-186,545997054806553u},{-186,624446043527562u},{-186,702895032248571u},{-186,962294417158261u},{-186,1010399254651587u},{-186,1016690987132607u},{-186,1022982719613627u},{-186,1034451673398250u},{-186,1248892087055124u},{-186,1743638438127841u},{-186,2159935800479549u},{-186,2497784174110248u},{-186,3487276876255682u},{-186,3825125249886381u},{-186,4319871600959098u},{-186,4657719974589797u},{-186,7312402126142063u},{-186,7650250499772762u},{-186,8639743201918196u},{-186,9315439949179594u},{-186,9991136696440992u},{-186,11632273727101161u},{-186,12307970474362559u},{-186,14624804252284126u},{-186,15300500999545524u},{-186,919286358303445001u},{-186,943226602504908721u},{-186,967166846706372441u},{-186,991107090907836161u},{-186,1015047335109299881u},{-186,1038987579310763601u},{-186,1934333693412744882u},{-186,1982214181815672322u},{-186,2030094670218599762u},{-186,2937410906421312903u},{-186,3033171883227167783u},{-186,3964428363631344644u},{-186,4943565332438448945u},{-186,5874821812842625806u},{-186,6997600246858512427u},{-186,7928856727262689288u},{-186,8764352230861011269u},{-186,9147396138084430789u},{-186,9887130664876897890u},
{-185,100299301099315u},{-185,100928474347417u},{-185,101557647595519u},{-185,104388927211978u},{-185,129699692454845u},{-185,156268804193916u},{-185,285968496648761u},{-185,312537608387832u},{-185,494746351072717u},{-185,702265859000469u},{-185,883216255189150u},{-185,912302059920629u},{-185,989492702145434u},{-185,1066683344370239u},{-185,1327341075776133u},{-185,2056176046515673u},{-185,2133366688740478u},{-185,2654682151552266u},{-185,2731872793777071u},{-185,3253188256588859u},{-185,26932774726646685u},{-185,28129786936719871u},{-185,29326799146793057u},{-185,53865549453293370u},{-185,56259573873439742u},{-185,58653598293586114u},{-185,101746037856220810u},{-185,104140062276367182u},{-185,873799894320663933u},{-185,912104285043005885u},{-185,950408675765347837u},{-185,1027017457210031741u},{-185,1977426132975379578u},{-185,2946987004101898391u},{-185,3023595785546582295u},{-185,3954852265950759156u},{-185,5001021918521961873u},{-185,5893974008203796782u},{-185,6863534879330315595u},{-185,7909704531901518312u},{-185,8955874184472721029u},
{-184,103759753963876u},{-184,119197882408837u},{-184,134636010853798u},{-184,176643251037830u},{-184,1150697824738303u},{-184,1181574081628225u},{-184,1212450338518147u},{-184,1243326595408069u},{-184,1764642058219857u},{-184,1826394571999701u},{-184,2363148163256450u},{-184,2424900677036294u},{-184,5386554945329337u},{-184,6583567155402523u},{-184,7780579365475709u},{-184,10174603785622081u},{-184,10421613840741457u},{-184,10773109890658674u},{-184,13167134310805046u},{-184,15561158730951418u},{-184,21546219781317348u},{-184,26334268621610092u},{-184,31122317461902836u},{-184,43092439562634696u},{-184,86184879125269392u},{-184,87134881280223202u},{-184,95285975728377975u},{-184,96235977883331785u},{-184,115388173244502761u},{-184,134540368605673737u},{-184,153692563966844713u},{-184,182420857008601177u},{-184,220725247730943129u},{-184,364841714017202354u},{-184,441450495461886258u},{-184,604719157109316459u},{-184,729683428034404708u},{-184,882900990923772516u},{-184,969560871126518813u},{-184,1209438314218632918u},{-184,1296098194421379215u},{-184,1372706975866063119u},{-184,1939121742253037626u},{-184,2418876628437265836u},{-184,2745413951732126238u},{-184,3791583604303328955u},{-184,4924413137077277969u},{-184,5490827903464252476u},{-184,6536997556035455193u},{-184,7583167208606657910u},{-184,9848826274154555938u},
{-183,101533557305054u},{-183,103905002130669u},{-183,116971685750015u},{-183,119343130575630u},{-183,132409814194976u},{-183,141314600830264u},{-183,205438559435723u},{-183,236314816325645u},{-183,282629201660528u},{-183,315876903376065u},{-183,377629417155909u},{-183,472629632651290u},{-183,755258834311818u},{-183,850259049807199u},{-183,945259265302580u},{-183,1002268889431194u},{-183,1011754668733654u},{-183,1040259480797961u},{-183,1605517884119017u},{-183,1700518099614398u},{-183,1795518315109779u},{-183,1890518530605160u},{-183,1985518746100541u},{-183,3401036199228796u},{-183,3496036414724177u},{-183,3591036630219558u},{-183,3686036845714939u},{-183,3781037061210320u},{-183,7087073044943735u},{-183,7182073260439116u},{-183,7277073475934497u},{-183,7372073691429878u},{-183,14269146305382851u},{-183,14364146520878232u},{-183,14459146736373613u},{-183,14554146951868994u},{-183,19057195145675595u},{-183,19247195576666357u},{-183,28728293041756464u},{-183,28918293472747226u},{-183,38494391153332714u},{-183,48165489049413583u},{-183,57456586083512928u},{-183,67127683979593797u},{-183,76988782306665428u},{-183,86279879340764773u},{-183,96330978098827166u},{-183,105622075132926511u},{-183,114913172167025856u},{-183,124964270925088249u},{-183,134255367959187594u},{-183,163268661647430201u},{-183,211244150265853022u},{-183,259219638884275843u},{-183,326537323294860402u},{-183,335828420328959747u},{-183,422488300531706044u},{-183,431779397565805389u},{-183,518439277768551686u},{-183,566414766386974507u},{-183,758316720860665791u},{-183,950218675334357075u},{-183,1018296361468904682u},{-183,1036878555537103372u},{-183,1055460749605302062u},{-183,1132829532773949014u},{-183,1516633441721331582u},{-183,1795195276397769163u},{-183,1900437350668714150u},{-183,2370901139818843015u},{-183,3033266883442663164u},{-183,3695632627066483313u},{-183,4636560205366741043u},{-183,4741802279637686030u},{-183,6066533766885326328u},{-183,7391265254132966626u},{-183,9167878336462537099u},{-183,9273120410733482086u},{-183,9378362485004427073u},{-183,9483604559275372060u},{-183,9588846633546317047u},
{-182,100217394111734u},{-182,101165972041980u},{-182,126350761350426u},{-182,156752729275225u},{-182,189051853060516u},{-182,252701522700852u},{-182,283103490625651u},{-182,378103706121032u},{-182,566206981251302u},{-182,661207196746683u},{-182,756207412242064u},{-182,915805875308027u},{-182,942413531511842u},{-182,1322414393493366u},{-182,1417414608988747u},{-182,1512414824484128u},{-182,2739829002482113u},{-182,2834829217977494u},{-182,2929829433472875u},{-182,3024829648968256u},{-182,3811439029135119u},{-182,4001439460125881u},{-182,5669658435954988u},{-182,5859658866945750u},{-182,7622878058270238u},{-182,8002878920251762u},{-182,9481097465090107u},{-182,9861098327071631u},{-182,11339316871909976u},{-182,11719317733891500u},{-182,13197536278729845u},{-182,15245756116540476u},{-182,103045638905231345u},{-182,104903858312051214u},{-182,106762077718871083u},{-182,186327296253231677u},{-182,190043735066871415u},{-182,193760173880511153u},{-182,282278273490077319u},{-182,380087470133742830u},{-182,474180227963768603u},{-182,564556546980154638u},{-182,760174940267485660u},{-182,850551259283871695u},{-182,872849892165710123u},{-182,918628945418419302u},{-182,948360455927537206u},{-182,978091966436655110u},{-182,1234355168231254263u},{-182,1520349880534971320u},{-182,1701102518567743390u},{-182,1896720911855074412u},{-182,2935457686798997653u},{-182,3793441823710148824u},{-182,4260189174046637951u},{-182,5404168023261506179u},{-182,5870915373597995306u},{-182,7586883647420297648u},{-182,8053630997756786775u},{-182,8520378348093275902u},
{-181,114759120938654u},{-181,120080652179417u},{-181,125402183420180u},{-181,164919994306726u},{-181,245482835599597u},{-181,490965671199194u},{-181,585965886694575u},{-181,686287633430719u},{-181,876288064421481u},{-181,981931342398388u},{-181,1171931773389150u},{-181,1277575051366057u},{-181,2048219837810631u},{-181,2343863546778300u},{-181,2639507255745969u},{-181,3420795104672069u},{-181,4687727093556600u},{-181,5279014511491938u},{-181,6841590209344138u},{-181,10051098758062393u},{-181,10558029022983876u},{-181,10726743329011586u},{-181,11824961011868407u},{-181,34292308199734545u},{-181,38008747013374283u},{-181,41725185827014021u},{-181,57942230223471359u},{-181,76017494026748566u},{-181,94599688094947256u},{-181,97809196643665511u},{-181,115884460446942718u},{-181,133959724250219925u},{-181,152034988053497132u},{-181,170110251856774339u},{-181,267919448500439850u},{-181,304069976106994264u},{-181,340220503713548678u},{-181,358295767516825885u},{-181,608139952213988528u},{-181,680441007427097356u},{-181,716591535033651770u},{-181,894134664517705585u},{-181,1038736774943923241u},{-181,1216279904427977056u},{-181,1360882014854194712u},{-181,1610726199551357355u},{-181,2255016679371900297u},{-181,3221452399102714710u},{-181,4510033358743800594u},{-181,5976157447868940293u},{-181,6442904798205429420u},{-181,6909652148541918547u},{-181,9020066717487601188u},{-181,9486814067824090315u},
{-180,100321746736144u},{-180,117193177338915u},{-180,134064607941686u},{-180,200643493472288u},{-180,217514924075059u},{-180,234386354677830u},{-180,251257785280601u},{-180,268129215883372u},{-180,435029848150118u},{-180,451901278752889u},{-180,468772709355660u},{-180,485644139958431u},{-180,502515570561202u},{-180,903802557505778u},{-180,920673988108549u},{-180,937545418711320u},{-180,954416849314091u},{-180,971288279916862u},{-180,1005031141122404u},{-180,1021902571725175u},{-180,1038774002327946u},{-180,1233189127678989u},{-180,1266931988884531u},{-180,1841347976217098u},{-180,1875090837422640u},{-180,2466378255357978u},{-180,3108279965101629u},{-180,3750181674845280u},{-180,4324597662177847u},{-180,5574658220459607u},{-180,6216559930203258u},{-180,6858461639946909u},{-180,7500363349690560u},{-180,8851652491588946u},{-180,9223611311688261u},{-180,9493554201332597u},{-180,9865513021431912u},{-180,12433119860406516u},{-180,13075021570150167u},{-180,13716923279893818u},{-180,14358824989637469u},{-180,26150043140300334u},{-180,26791944850043985u},{-180,27433846559787636u},{-180,28075748269531287u},{-180,52941987990344319u},{-180,53583889700087970u},{-180,54225791409831621u},{-180,54867693119575272u},{-180,70375350083877875u},{-180,71659153503365177u},{-180,72942956922852479u},{-180,107167779400175940u},{-180,108451582819663242u},{-180,143318307006730354u},{-180,178826932903541117u},{-180,214335558800351880u},{-180,249844184697162643u},{-180,286636614013460708u},{-180,322145239910271471u},{-180,357653865807082234u},{-180,393162491703892997u},{-180,573273228026921416u},{-180,644290479820542942u},{-180,715307731614164468u},{-180,786324983407785994u},{-180,1040020578363410543u},{-180,1070393990582272098u},{-180,1111037830157032069u},{-180,1146546456053842832u},{-180,1288580959641085884u},{-180,1430615463228328936u},{-180,1897362813564818063u},{-180,2039397317152061115u},{-180,2577161919282171768u},{-180,3185943773205903947u},{-180,3794725627129636126u},{-180,4403507481053368305u},{-180,4545541984640611357u},{-180,5154323838564343536u},{-180,5763105692488075715u},{-180,6371887546411807894u},{-180,6980669400335540073u},{-180,9091083969281222714u},{-180,9172371648430742656u},{-180,9618578144055434951u},{-180,9699865823204954893u},{-180,9781153502354474835u},
{-179,100660583479911u},{-179,103719930865124u},{-179,105643277976907u},{-179,107566625088690u},{-179,170637653139493u},{-179,187509083742264u},{-179,204380514345035u},{-179,233140681053581u},{-179,266883542259123u},{-179,375018167484528u},{-179,608158848538109u},{-179,750036334969056u},{-179,918750640996766u},{-179,932562724214324u},{-179,993142405016629u},{-179,1141925933056355u},{-179,1500072669938112u},{-179,2358243630132573u},{-179,3000145339876224u},{-179,4716487260265146u},{-179,5358388970008797u},{-179,6000290679752448u},{-179,8791072810786641u},{-179,9432974520530292u},{-179,10074876230273943u},{-179,10716777940017594u},{-179,11358679649761245u},{-179,12000581359504896u},{-179,12642483069248547u},{-179,14075070016775575u},{-179,21433555880035188u},{-179,28150140033551150u},{-179,36792429316298065u},{-179,42867111760070376u},{-179,56300280067102300u},{-179,79659541076368441u},{-179,85734223520140752u},{-179,103018802085634582u},{-179,103958270851457685u},{-179,109093484529406893u},{-179,165393764596509193u},{-179,171468447040281504u},{-179,265844959843169171u},{-179,342936894080563008u},{-179,407879463430412223u},{-179,750816357510975231u},{-179,815758926860824446u},{-179,880701496210673661u},{-179,892850861098218283u},{-179,933494700672978254u},{-179,974138540247738225u},{-179,982092160223156742u},{-179,1022735999797916713u},{-179,1152621138497615143u},{-179,1631517853721648892u},{-179,1761402992421347322u},{-179,2305242276995230286u},{-179,2914024130918962465u},{-179,3522805984842694644u},{-179,4610484553990460572u},{-179,5828048261837924930u},{-179,9220969107980921144u},{-179,9569980684505256463u},
{-178,108134625225405u},{-178,120250561385866u},{-178,151388475315567u},{-178,163504411476028u},{-178,228385186611271u},{-178,314892886791595u},{-178,358146736881757u},{-178,456770373222542u},{-178,629785773583190u},{-178,716293473763514u},{-178,814917110104299u},{-178,913540746445084u},{-178,1012164382785869u},{-178,1259571547166380u},{-178,1358195183507165u},{-178,1629834220208598u},{-178,2271735929952249u},{-178,2815014003355115u},{-178,4543471859904498u},{-178,4988126296966579u},{-178,5630028006710230u},{-178,7358485863259613u},{-178,9086943719808996u},{-178,9976252593933158u},{-178,10026412485632099u},{-178,10765241684659438u},{-178,10815401576358379u},{-178,10865561468057320u},{-178,11260056013420460u},{-178,14716971726519226u},{-178,20791654170291537u},{-178,22520112026840920u},{-178,29433943453038452u},{-178,35508625896810763u},{-178,45040224053681840u},{-178,58028737923651683u},{-178,71017251793621526u},{-178,90080448107363680u},{-178,91758746072214122u},{-178,478896715224033749u},{-178,530850770703913121u},{-178,582804826183792493u},{-178,634758881663671865u},{-178,712689964883490923u},{-178,957793430448067498u},{-178,1061701541407826242u},{-178,1165609652367584986u},{-178,1269517763327343730u},{-178,1774391506291317165u},{-178,2331219304735169972u},{-178,4662438609470339944u},{-178,7446577601689603979u},{-178,9324877218940679888u},{-178,9673888795465015207u},
{-177,106232427448481u},{-177,125957154716638u},{-177,153290673092491u},{-177,173015400360648u},{-177,192740127628805u},{-177,424929709793924u},{-177,464379164330238u},{-177,503828618866552u},{-177,563002800671023u},{-177,641901709743651u},{-177,720800618816279u},{-177,1007657237733104u},{-177,1036396255106791u},{-177,1086556146805732u},{-177,1126005601342046u},{-177,1283803419487302u},{-177,1649558947476755u},{-177,1807356765622011u},{-177,2173112293611464u},{-177,2252011202684092u},{-177,2775564548818801u},{-177,3299117894953510u},{-177,4504022405368184u},{-177,5551129097637602u},{-177,7437384772332241u},{-177,8484491464601659u},{-177,9008044810736368u},{-177,9423960230424762u},{-177,9431278373473195u},{-177,9847193793161589u},{-177,11941407177700425u},{-177,14035620562239261u},{-177,16968982929203318u},{-177,18016089621472736u},{-177,20949451988436793u},{-177,28071241124478522u},{-177,31004603491442579u},{-177,33937965858406636u},{-177,36032179242945472u},{-177,38965541609909529u},{-177,41898903976873586u},{-177,62009206982885158u},{-177,64942569349849215u},{-177,72064358485890944u},{-177,74997720852855001u},{-177,77931083219819058u},{-177,80864445586783115u},{-177,83797807953747172u},{-177,124018413965770316u},{-177,126951776332734373u},{-177,129885138699698430u},{-177,149995441705710002u},{-177,155862166439638116u},{-177,199016134818625317u},{-177,204882859552553431u},{-177,253903552665468746u},{-177,299990883411420004u},{-177,354878301258263433u},{-177,452919687484094063u},{-177,507807105330937492u},{-177,709756602516526866u},{-177,862685406589200925u},{-177,1015614210661874984u},{-177,1058768179040862185u},{-177,1101922147419849386u},{-177,1125389046355561842u},{-177,1419513205033053732u},{-177,1725370813178401850u},{-177,2074382389702737169u},{-177,2839026410066107464u},{-177,3188037986590442783u},{-177,3799753202881139019u},{-177,4411468419171835255u},{-177,6027064396656550247u},{-177,7599506405762278038u},{-177,9258256351625980231u},{-177,9607267928150315550u},{-177,9956279504674650869u},{-177,9960059334167088580u},
{-176,102229352382997u},{-176,109334073503412u},{-176,118348363608942u},{-176,154192102103044u},{-176,175719687392307u},{-176,329911789495351u},{-176,351439374784614u},{-176,659823578990702u},{-176,681351164279965u},{-176,903731738293010u},{-176,939468765823103u},{-176,946786908871536u},{-176,982523936401629u},{-176,1068634277558681u},{-176,1319647157981404u},{-176,1570660038404127u},{-176,2137268555117362u},{-176,2388281435540085u},{-176,2639294315962808u},{-176,4525549990657447u},{-176,4776562871080170u},{-176,5027575751502893u},{-176,7121789136041729u},{-176,9051099981314894u},{-176,9553125742160340u},{-176,10055151503005786u},{-176,12486488109124397u},{-176,12988513869969843u},{-176,13490539630815289u},{-176,16172889117356623u},{-176,23043665372975629u},{-176,25977027739939686u},{-176,32345778234713246u},{-176,42149916857296309u},{-176,51954055479879372u},{-176,68628970358081441u},{-176,84299833714592618u},{-176,88237247603247567u},{-176,103908110959758744u},{-176,107845524848413693u},{-176,111782938737068642u},{-176,133320526827507933u},{-176,172537081317840185u},{-176,211753635808172437u},{-176,231361913053338563u},{-176,266641053655015866u},{-176,345074162635680370u},{-176,423507271616344874u},{-176,498002966708354429u},{-176,690148325271360740u},{-176,882293683834367051u},{-176,925447652213354252u},{-176,960726792815031555u},{-176,996005933416708858u},{-176,1345017509941044177u},{-176,1380296650542721480u},{-176,1729308227067056799u},{-176,1764587367668734102u},{-176,2341023443357753035u},{-176,3109604877609778279u},{-176,3529174735337468204u},{-176,4682046886715506070u},{-176,6219209755219556558u},{-176,8175942481451296971u},{-176,9364093773431012140u},
{-175,136270232855993u},{-175,205115821396031u},{-175,272540465711986u},{-175,410231642792062u},{-175,477656287108017u},{-175,545080931423972u},{-175,820463285584124u},{-175,955312574216034u},{-175,1090161862847944u},{-175,1206325454638757u},{-175,1341174743270667u},{-175,1524762979377435u},{-175,1910625148432068u},{-175,2798513078332147u},{-175,3435388127809503u},{-175,3821250296864136u},{-175,6870776255619006u},{-175,7256638424673639u},{-175,7642500593728272u},{-175,8028362762782905u},{-175,10808190144273955u},{-175,11194052313328588u},{-175,14513276849347278u},{-175,19994139414220759u},{-175,34507416263568037u},{-175,69014832527136074u},{-175,91788799322847883u},{-175,94182764535284300u},{-175,97962594027722011u},{-175,113712249582341807u},{-175,138029665054272148u},{-175,162347080526202489u},{-175,192145358563006311u},{-175,276059330108544296u},{-175,359973301654082281u},{-175,384290717126012622u},{-175,468204688671550607u},{-175,552118660217088592u},{-175,636032631762626577u},{-175,755225743909841865u},{-175,768581434252025244u},{-175,781937124594208623u},{-175,923053687000917835u},{-175,936409377343101214u},{-175,949765067685284593u},{-175,1104237320434177184u},{-175,1272065263525253154u},{-175,1439893206616329124u},{-175,1453248896958512503u},{-175,1872818754686202428u},{-175,2725314160483765657u},{-175,3745637509372404856u},{-175,4598132915169968085u},{-175,5450628320967531314u},{-175,5967467840582942603u},{-175,7491275018744809712u},{-175,9196265830339936170u},
{-174,105279046916575u},{-174,118763975779766u},{-174,132248904642957u},{-174,264497809285914u},{-174,304952595875487u},{-174,358892311328251u},{-174,609905191750974u},{-174,717784622656502u},{-174,887887929900079u},{-174,995767360805607u},{-174,1041422915373086u},{-174,1057991237143656u},{-174,1103646791711135u},{-174,1120215113481705u},{-174,1219810383501948u},{-174,1605672552556581u},{-174,2161638028854791u},{-174,3211345105113162u},{-174,4153172750466005u},{-174,4709138226764215u},{-174,6592793517469901u},{-174,9418276453528430u},{-174,9758483068015584u},{-174,11131828436990539u},{-174,13185587034939802u},{-174,14899139018401911u},{-174,20550104890518969u},{-174,29798278036803822u},{-174,41100209781037938u},{-174,57883004090145535u},{-174,82200419562075876u},{-174,85627523529000094u},{-174,98983213871183473u},{-174,115766008180291070u},{-174,132548802489398667u},{-174,151045148781968373u},{-174,184610737400183567u},{-174,651101874088272065u},{-174,785364228561132841u},{-174,919626583033993617u},{-174,1053888937506854393u},{-174,1100810216467252966u},{-174,1839253166067987234u},{-174,2691748571865550463u},{-174,3678506332135974468u},{-174,5383497143731100926u},{-174,7357012664271948936u},{-174,9417869260325259149u},{-174,9518213300654391238u},{-174,9867577602704240050u},
{-173,165132810712406u},{-173,168446475066520u},{-173,220729358342227u},{-173,224043022696341u},{-173,277982738149105u},{-173,330265621424812u},{-173,389175833408747u},{-173,441458716684454u},{-173,555965476298210u},{-173,608248359573917u},{-173,830634550093201u},{-173,941827645352843u},{-173,980855871212094u},{-173,1216496719147834u},{-173,1386600026391411u},{-173,1661269100186402u},{-173,1883655290705686u},{-173,2158324364500677u},{-173,3047869126577813u},{-173,3322538200372804u},{-173,3767310581411372u},{-173,4931524417283499u},{-173,6645076400745608u},{-173,7534621162822744u},{-173,9248173146284853u},{-173,9863048834566998u},{-173,11576600818029107u},{-173,13905028489773361u},{-173,19111221980851851u},{-173,23153201636058214u},{-173,27195181291264577u},{-173,42264423616910065u},{-173,46306403272116428u},{-173,50348382927322791u},{-173,54390362582529154u},{-173,92612806544232856u},{-173,96654786199439219u},{-173,100696765854645582u},{-173,104738745509851945u},{-173,108780725165058308u},{-173,130220374817654413u},{-173,138304334128067139u},{-173,193309572398878438u},{-173,201393531709291164u},{-173,260440749635308826u},{-173,331613906526945577u},{-173,457792301689393627u},{-173,520881499270617652u},{-173,663227813053891154u},{-173,718233051324702453u},{-173,860579365107975955u},{-173,915584603378787254u},{-173,941418958212103215u},{-173,977091324057933496u},{-173,986757760270424005u},{-173,996424196482914514u},{-173,1381460864378593607u},{-173,1776163968486763209u},{-173,1973515520540848010u},{-173,2423223862919828911u},{-173,2762921728757187214u},{-173,3212630071136168115u},{-173,3552327936973526418u},{-173,3947031041081696020u},{-173,5186145591677016125u},{-173,6764958008109694533u},{-173,7894062082163392040u},{-173,9133176632758712145u},
{-172,111193095259642u},{-172,134757180053216u},{-172,222386190519284u},{-172,298233158588565u},{-172,345361328175713u},{-172,444772381038568u},{-172,596466317177130u},{-172,719441454833559u},{-172,766569624420707u},{-172,824007221384973u},{-172,889544762077136u},{-172,946982359041402u},{-172,1192932634354260u},{-172,1315907772010689u},{-172,1438882909667118u},{-172,7960984172756297u},{-172,8206934448069155u},{-172,8452884723382013u},{-172,8698834998694871u},{-172,12371889240931947u},{-172,16905769446764026u},{-172,20947749101970389u},{-172,29277658687695973u},{-172,33811538893528052u},{-172,41895498203940778u},{-172,63089197581224025u},{-172,83790996407881556u},{-172,88324876613713635u},{-172,93842557920797146u},{-172,94441233721623497u},{-172,98376438126629225u},{-172,98975113927455576u},{-172,121644514956615971u},{-172,126178395162448050u},{-172,172115873021595191u},{-172,197351552054084801u},{-172,298294268184043241u},{-172,344231746043190382u},{-172,394703104108169602u},{-172,642526014227233623u},{-172,688463492086380764u},{-172,789406208216339204u},{-172,881281163934633486u},{-172,945354162617108943u},{-172,1037229118335403225u},{-172,1285052028454467246u},{-172,1376926984172761528u},{-172,1578812416432678408u},{-172,1826635326551742429u},{-172,2074458236670806450u},{-172,2322281146789870471u},{-172,2570104056908934492u},{-172,3157624832865356816u},{-172,3653270653103484858u},{-172,4148916473341612900u},{-172,4644562293579740942u},{-172,6315249665730713632u},{-172,7306541306206969716u},{-172,8297832946683225800u},{-172,9289124587159481884u},
{-171,111929514993420u},{-171,119293263435426u},{-171,126657011877432u},{-171,202503979946713u},{-171,238586526870852u},{-171,477173053741704u},{-171,687040782130423u},{-171,954346107483408u},{-171,1055966195099710u},{-171,1077321245139837u},{-171,1641386889613831u},{-171,3282773779227662u},{-171,4287929930519221u},{-171,6052291957789481u},{-171,6565547558455324u},{-171,8575859861038442u},{-171,9089115461704285u},{-171,9538305912249747u},{-171,9623726112410255u},{-171,12104583915578962u},{-171,12617839516244805u},{-171,13131095116910648u},{-171,17151719722076884u},{-171,18178230923408570u},{-171,25235679032489610u},{-171,35329950645485454u},{-171,50471358064979220u},{-171,70659901290970908u},{-171,95382324722794675u},{-171,100942716129958440u},{-171,106503107537122205u},{-171,141319802581941816u},{-171,146880193989105581u},{-171,207445823667080645u},{-171,288199996571047397u},{-171,414891647334161290u},{-171,501206211645291807u},{-171,743468730357192063u},{-171,829783294668322580u},{-171,916097858979453097u},{-171,1002412423290583614u},{-171,1066485421973059071u},{-171,1088726987601714131u},{-171,1152799986284189588u},{-171,1659566589336645160u},{-171,1745881153647775677u},{-171,3319133178673290320u},{-171,4396739383460676921u},{-171,5560660152559194039u},{-171,6638266357346580640u},{-171,9656624410032659012u},{-171,9740287276140299806u},{-171,9960051234223360683u},
{-170,102945598247525u},{-170,105596619509971u},{-170,108247640772417u},{-170,110898662034863u},{-170,141679166434110u},{-170,157732173949345u},{-170,195140231504707u},{-170,211193239019942u},{-170,283358332868220u},{-170,422386478039884u},{-170,652283745837507u},{-170,759205875978701u},{-170,962299171270746u},{-170,962446051211305u},{-170,1005156151291559u},{-170,1219000411573947u},{-170,1518411751957402u},{-170,1817823092340857u},{-170,1924745222482051u},{-170,2523567903248961u},{-170,3122390584015871u},{-170,3635646184681714u},{-170,3935057525065169u},{-170,5047135806497922u},{-170,6159214087930675u},{-170,7271292369363428u},{-170,7870115050130338u},{-170,8982193331563091u},{-170,10094271612995844u},{-170,11206349894428597u},{-170,12318428175861350u},{-170,13430506457294103u},{-170,15740230100260676u},{-170,16852308381693429u},{-170,17964386663126182u},{-170,21300621507424441u},{-170,22412699788857194u},{-170,23524778070289947u},{-170,37040851607685117u},{-170,38152929889117870u},{-170,39265008170550623u},{-170,42601243014848882u},{-170,43713321296281635u},{-170,44825399577714388u},{-170,78530016341101246u},{-170,80754172903966752u},{-170,82978329466832258u},{-170,85202486029697764u},{-170,87426642592563270u},{-170,161508345807933504u},{-170,165956658933664516u},{-170,170404972059395528u},{-170,245598753556198515u},{-170,331913317867329032u},{-170,418227882178459549u},{-170,663826635734658064u},{-170,913873702416587591u},{-170,976150086176821759u},{-170,982395014224794060u},{-170,1327653271469316128u},{-170,1827747404833175182u},{-170,1905165342892843675u},{-170,2577888604878963763u},{-170,2655306542938632256u},{-170,3655494809666350364u},{-170,3732912747726018857u},{-170,4233006881089877911u},{-170,5310613085877264512u},{-170,6388219290664651113u},{-170,8466013762179755822u},{-170,9543619966967142423u},
{-169,113343333147288u},{-169,126185739159476u},{-169,173225601223979u},{-169,186068007236167u},{-169,226686666294576u},{-169,286568934371267u},{-169,346451202447958u},{-169,419175876536837u},{-169,752784672972607u},{-169,838351753073674u},{-169,906746665178304u},{-169,992313745279371u},{-169,1231842817586135u},{-169,1471371889892899u},{-169,1984627490558742u},{-169,2463685635172270u},{-169,2942743779785798u},{-169,3815292988911787u},{-169,4927371270344540u},{-169,6518507696390821u},{-169,7630585977823574u},{-169,8742664259256327u},{-169,9854742540689080u},{-169,10658896837710439u},{-169,10966820822121833u},{-169,11770975119143192u},{-169,13037015392781642u},{-169,15261171955647148u},{-169,17485328518512654u},{-169,19709485081378160u},{-169,30522343911294296u},{-169,34970657037025308u},{-169,46895594148374197u},{-169,49119750711239703u},{-169,69941314074050616u},{-169,81866251185399505u},{-169,98051195094280835u},{-169,98239501422479406u},{-169,98427807750677977u},{-169,151807565259450121u},{-169,163732502370799010u},{-169,196479002844958812u},{-169,250047066681929527u},{-169,381033068578568735u},{-169,500094133363859054u},{-169,577512071423527547u},{-169,684648199097468977u},{-169,762066137157137470u},{-169,785916011379835248u},{-169,815634200994108185u},{-169,845352390608381122u},{-169,970470077113445171u},{-169,1000188266727718108u},{-169,1155024142847055094u},{-169,1184742332461328031u},{-169,1339578208580665017u},{-169,1369296398194937954u},{-169,1524132274314274940u},{-169,2339766475308383125u},{-169,2708874606775602971u},{-169,3601926745829379649u},{-169,4679532950616766250u},{-169,5757139155404152851u},{-169,6126247286871372697u},{-169,7203853491658759298u},{-169,8281459696446145899u},{-169,9359065901233532500u},
{-168,246368563517227u},{-168,366133099670609u},{-168,492737127034454u},{-168,633020136819225u},{-168,732266199341218u},{-168,985474254068908u},{-168,1084720316590901u},{-168,1139436246274605u},{-168,1183966379112894u},{-168,1365286336160443u},{-168,1970948508137816u},{-168,3941897016275632u},{-168,4547559188253005u},{-168,7883794032551264u},{-168,8489456204528637u},{-168,9710966345328798u},{-168,9899272673527369u},{-168,15767588065102528u},{-168,16373250237079901u},{-168,16978912409057274u},{-168,22032887706765659u},{-168,32746500474159802u},{-168,44065775413531318u},{-168,54779388180925461u},{-168,65493000948319604u},{-168,88131550827062636u},{-168,96422514906547287u},{-168,109558776361850922u},{-168,130986001896639208u},{-168,152413227431427494u},{-168,163126840198821637u},{-168,304826454862854988u},{-168,326253680397643274u},{-168,467953295061676625u},{-168,609652909725709976u},{-168,652507360795286548u},{-168,708498073320166755u},{-168,935906590123353250u},{-168,1107324394401659538u},{-168,1163315106926539745u},{-168,1219305819451419952u},{-168,1871813180246706500u},{-168,2382620926377959697u},{-168,3743626360493413000u},{-168,4254434106624666197u},{-168,7487252720986826000u},{-168,7998060467118079197u},{-168,8508868213249332394u},{-168,9803545934728908489u},{-168,9866427980661120030u},{-168,9929310026593331571u},{-168,9992192072525543112u},
{-167,110887885573836u},{-167,112925044942919u},{-167,114962204312002u},{-167,126604027363845u},{-167,177245638309383u},{-167,227887249254921u},{-167,253208054727690u},{-167,352454117249683u},{-167,354491276618766u},{-167,453737339140759u},{-167,455774498509842u},{-167,504378950086297u},{-167,506416109455380u},{-167,706945393868449u},{-167,909511837650601u},{-167,988386306481764u},{-167,992460625219930u},{-167,996534943958096u},{-167,1213361503323829u},{-167,1413890787736898u},{-167,1618494390888133u},{-167,1819023675301202u},{-167,2222119403496423u},{-167,2426723006647658u},{-167,3032385178625031u},{-167,3638047350602404u},{-167,4648842410144081u},{-167,6064770357250062u},{-167,7276094701204808u},{-167,9297684820288162u},{-167,9502288423439397u},{-167,11924937111348889u},{-167,12129540714500124u},{-167,14756793005560851u},{-167,15968117349515597u},{-167,29513586011121702u},{-167,88336154430213871u},{-167,93590659012335325u},{-167,98845163594456779u},{-167,104099668176578233u},{-167,141699614664033351u},{-167,187181318024670650u},{-167,232663021385307949u},{-167,283399229328066702u},{-167,374362636049341300u},{-167,465326042770615898u},{-167,566798458656133404u},{-167,601771152852527795u},{-167,748725272098682600u},{-167,930652085541231796u},{-167,979579455605534762u},{-167,986642798066112003u},{-167,993706140526689244u},{-167,1350496424951210395u},{-167,1497450544197365200u},{-167,2484093342263477203u},{-167,2994901088394730400u},{-167,3505708834525983597u},{-167,5989802176789460800u},{-167,6500609922920713997u},{-167,7011417669051967194u},{-167,9425565622922655615u},{-167,9936373369053908812u},
{-166,101283221891076u},{-166,142203942521323u},{-166,181087503782487u},{-166,202566443782152u},{-166,243487164412399u},{-166,405132887564304u},{-166,769345054498361u},{-166,810265775128608u},{-166,851186495758855u},{-166,5295425302751701u},{-166,5377266744012195u},{-166,7963598314442675u},{-166,8127281196963663u},{-166,10427167722982414u},{-166,10590850605503402u},{-166,10754533488024390u},{-166,10918216370545378u},{-166,11081899253066366u},{-166,13463627220345611u},{-166,18718131802467065u},{-166,23972636384588519u},{-166,37436263604934130u},{-166,74872527209868260u},{-166,98026749181851839u},{-166,98370767288343653u},{-166,99164203188773836u},{-166,99508221295265650u},{-166,120354230570505559u},{-166,149745054419736520u},{-166,179135878268967481u},{-166,211317637291780157u},{-166,240708461141011118u},{-166,270099284990242079u},{-166,299490108839473040u},{-166,328880932688704001u},{-166,358271756537934962u},{-166,481416922282022236u},{-166,540198569980484158u},{-166,598980217678946080u},{-166,657761865377408002u},{-166,804715984623562807u},{-166,845270549167120628u},{-166,922279280020486651u},{-166,962833844564044472u},{-166,1080397139960968316u},{-166,1197960435357892160u},{-166,1315523730754816004u},{-166,1885113124584531123u},{-166,2395920870715784320u},{-166,2906728616847037517u},{-166,4045907404506467755u},{-166,4791841741431568640u},{-166,5813457233694075034u},{-166,8091814809012935510u},{-166,8837749145938036395u},{-166,9583683482863137280u},
{-165,105579009891009u},{-165,112133426521792u},{-165,146499730521256u},{-165,170237299151771u},{-165,211158019782018u},{-165,340474598303542u},{-165,680949196607084u},{-165,993611907541945u},{-165,1075453348802439u},{-165,1157294790062933u},{-165,1592719662888535u},{-165,2150906697604878u},{-165,2627252291060727u},{-165,3185439325777070u},{-165,3743626360493413u},{-165,4301813395209756u},{-165,4860000429926099u},{-165,5812691616837797u},{-165,6370878651554140u},{-165,6929065686270483u},{-165,8045439755703169u},{-165,8603626790419512u},{-165,9161813825135855u},{-165,9778813076280658u},{-165,9929742192037254u},{-165,9950822129526565u},{-165,9971902067015876u},{-165,13299944337824623u},{-165,13858131372540966u},{-165,14416318407257309u},{-165,15532692476689995u},{-165,16090879511406338u},{-165,16649066546122681u},{-165,28832636814514618u},{-165,29949010883947304u},{-165,31065384953379990u},{-165,59898021767894608u},{-165,83706975269962139u},{-165,88172471547692883u},{-165,92637967825423627u},{-165,97103464103154371u},{-165,119796043535789216u},{-165,146954119246154805u},{-165,151419615523885549u},{-165,207968515083482099u},{-165,239592087071578432u},{-165,271215659059674765u},{-165,329997306758136687u},{-165,479184174143156864u},{-165,659994613516273374u},{-165,809181480901293551u},{-165,958368348286313728u},{-165,1084862636238699060u},{-165,1107555215671333905u},{-165,1234049503623719237u},{-165,1469176094417566925u},{-165,1618362961802587102u},{-165,1767549829187607279u},{-165,1916736696572627456u},{-165,2065923563957647633u},{-165,2215110431342667810u},{-165,3236725923605174204u},{-165,3535099658375214558u},{-165,3833473393145254912u},{-165,7070199316750429116u},{-165,7666946786290509824u},
{-164,100831496164906u},{-164,103772106986329u},{-164,122762161890741u},{-164,198722381508389u},{-164,201662992329812u},{-164,318543932577707u},{-164,397444763016778u},{-164,476345593455849u},{-164,637087865155414u},{-164,794889526033556u},{-164,952691186911698u},{-164,979652346043855u},{-164,982097295125928u},{-164,984542244208001u},{-164,1274175730310828u},{-164,1589779052067112u},{-164,1832362765027171u},{-164,1990164425905313u},{-164,2548351460621656u},{-164,3106538495337999u},{-164,3664725530054342u},{-164,3980328851810626u},{-164,5096702921243312u},{-164,6213076990675998u},{-164,7329451060108684u},{-164,7887638094825027u},{-164,7960657703621252u},{-164,8033677312417477u},{-164,10193405842486624u},{-164,12426153981351996u},{-164,14658902120217368u},{-164,15848295798446279u},{-164,20313792076177023u},{-164,24852307962703992u},{-164,29390823849230961u},{-164,49704615925407984u},{-164,54243131811934953u},{-164,58781647698461922u},{-164,103947747737342937u},{-164,108486263623869906u},{-164,113024779510396875u},{-164,117563295396923844u},{-164,122101811283450813u},{-164,212434011361212843u},{-164,216972527247739812u},{-164,221511043134266781u},{-164,226049559020793750u},{-164,293835218883513385u},{-164,302912250656567323u},{-164,433945054495479624u},{-164,443022086268533562u},{-164,587670437767026770u},{-164,727780273378993009u},{-164,886044172537067124u},{-164,1000091226570611149u},{-164,1000540644364549518u},{-164,1000990062158487887u},{-164,1175340875534053540u},{-164,1333604774692127655u},{-164,1613824445916060133u},{-164,1772088345074134248u},{-164,2350681751068107080u},{-164,3544176690148268496u},{-164,3982660260530275089u},{-164,5456374870834368983u},{-164,6333342011598382169u},{-164,7210309152362395355u},{-164,9158815460140711594u},{-164,9280771232206569957u},{-164,9402727004272428320u},
{-163,192890726039478u},{-163,9004012164257713u},{-163,9033220007776203u},{-163,9062427851294693u},{-163,9091635694813183u},{-163,13586339816062417u},{-163,18066440015552406u},{-163,22604955902079375u},{-163,40671395917631781u},{-163,45209911804158750u},{-163,49748427690685719u},{-163,58767043776702677u},{-163,81342791835263562u},{-163,90419823608317500u},{-163,100017903984739691u},{-163,117534087553405354u},{-163,149186867385020177u},{-163,180839647216635000u},{-163,203415395275195885u},{-163,235068175106810708u},{-163,266720954938425531u},{-163,298373734770040354u},{-163,330026514601655177u},{-163,406830790550391770u},{-163,470136350213621416u},{-163,533441909876851062u},{-163,813661581100783540u},{-163,818316928361384469u},{-163,940272700427242832u},{-163,1066883819753702124u},{-163,1442061830472479071u},{-163,1568672949798938363u},{-163,1880545400854485664u},{-163,2508945650226181195u},{-163,2884123660944958142u},{-163,3385912790990194381u},{-163,5393069311171139337u},{-163,5768247321889916284u},{-163,6771825581980388762u},{-163,7147003592699165709u},
{-162,4497624905601083u},{-162,4509308043008479u},{-162,4520991180415875u},{-162,4532674317823271u},{-162,9018616086016958u},{-162,9041982360831750u},{-162,10005458200695543u},{-162,13568815109951323u},{-162,18083964721663500u},{-162,27137630219902646u},{-162,36167929443327000u},{-162,40683079055039177u},{-162,72335858886654000u},{-162,81366158110078354u},{-162,94958339494844469u},{-162,131079536388541885u},{-162,144671717773308000u},{-162,158263899158074115u},{-162,162732316220156708u},{-162,212445694498620239u},{-162,325464632440313416u},{-162,501789130045236239u},{-162,601215886602163301u},{-162,650929264880626832u},{-162,827253762485549655u},{-162,1003578260090472478u},{-162,1026107275599403779u},{-162,1179902757695395301u},{-162,1202431773204326602u},{-162,2007156520180944956u},{-162,2382334530899721903u},{-162,3286486034433267319u},{-162,8051155096232711125u},{-162,9506809108089956311u},
{-161,869148823860987u},{-161,880831961268383u},{-161,892515098675779u},{-161,904198236083175u},{-161,915881373490571u},{-161,927564510897967u},{-161,1000153161322373u},{-161,1000440233317866u},{-161,1000632081819634u},{-161,1000919153815127u},{-161,1785030197351558u},{-161,1808396472166350u},{-161,1831762746981142u},{-161,2695070002138431u},{-161,2741802551768015u},{-161,3616792944332700u},{-161,4515149611712177u},{-161,5390140004276862u},{-161,6358595496100715u},{-161,7233585888665400u},{-161,8061843731600501u},{-161,8248773930118837u},{-161,9030299223424354u},{-161,9811824516729871u},{-161,9998754715248207u},{-161,11748735500377577u},{-161,14467171777330800u},{-161,18060598446848708u},{-161,20779034723801931u},{-161,23497471000755154u},{-161,28934343554661600u},{-161,31652779831614823u},{-161,41558069447603862u},{-161,46994942001510308u},{-161,52431814555416754u},{-161,57868687109323200u},{-161,63305559663229646u},{-161,71460868494089315u},{-161,82334613601902207u},{-161,83116138895207724u},{-161,93989884003020616u},{-161,104863629110833508u},{-161,115737374218646400u},{-161,126611119326459292u},{-161,165450752497109931u},{-161,209727258221667016u},{-161,231474748437292800u},{-161,264877509054036993u},{-161,330901504994219862u},{-161,396925500934402731u},{-161,485478512383516901u},{-161,661803009988439724u},{-161,793851001868805462u},{-161,948428009258102501u},{-161,1012888954611674336u},{-161,1016015055784896404u},{-161,1323606019976879448u},{-161,1610231019246542225u},{-161,1896856018516205002u},{-161,2933837039223421673u},{-161,3220462038493084450u},{-161,3507087037762747227u},{-161,3793712037032410004u},{-161,6154299077716506123u},{-161,6440924076986168900u},{-161,6727549076255831677u},{-161,7014174075525494454u},{-161,8492357102891670941u},{-161,9065607101430996495u},{-161,9638857099970322049u},
{-160,100005653631433u},{-160,100082533183572u},{-160,100101577882317u},{-160,157473372401843u},{-160,169156509809239u},{-160,180839647216635u},{-160,192522784624031u},{-160,210047490735125u},{-160,338313019618478u},{-160,361679294433270u},{-160,385045569248062u},{-160,548360510353603u},{-160,723358588866540u},{-160,828257842935101u},{-160,840189962940500u},{-160,921722942194269u},{-160,1096721020707206u},{-160,1271719099220143u},{-160,1446717177733080u},{-160,2193442041414412u},{-160,2543438198440286u},{-160,2893434355466160u},{-160,3768424748030845u},{-160,5086876396880572u},{-160,5786868710932320u},{-160,7536849496061690u},{-160,8155308830859669u},{-160,9555293458963165u},{-160,10173752793761144u},{-160,11573737421864640u},{-160,14292173698817863u},{-160,21129030880827805u},{-160,23147474843729280u},{-160,28584347397635726u},{-160,37439648542547143u},{-160,46294949687458560u},{-160,57168694795271452u},{-160,74879297085094286u},{-160,92589899374917120u},{-160,100663675226523020u},{-160,102226725813134054u},{-160,136866405099474205u},{-160,185179798749834240u},{-160,322046203849308445u},{-160,644092407698616890u},{-160,904933028826850933u},{-160,908188391459348366u},{-160,1001559816127571003u},{-160,1288184815397233780u},{-160,1574809814666896557u},{-160,1813121420286199299u},{-160,2576369630794467560u},{-160,3626242840572398598u},{-160,4389491051080666859u},{-160,5152739261588935120u},{-160,5915987472097203381u},{-160,7252485681144797196u},{-160,8778982102161333718u},
{-159,137711631848471u},{-159,144671717773308u},{-159,151631803698145u},{-159,168037992588100u},{-159,235650799992195u},{-159,289343435546616u},{-159,524994235538811u},{-159,578686871093232u},{-159,632379506647653u},{-159,646299678497327u},{-159,753684949606169u},{-159,861070220715011u},{-159,1049988471077622u},{-159,1157373742186464u},{-159,1264759013295306u},{-159,1507369899212338u},{-159,1911058691792633u},{-159,2314747484372928u},{-159,3014739798424676u},{-159,3418428591004971u},{-159,3822117383585266u},{-159,4629494968745856u},{-159,5033183761326151u},{-159,7644234767170532u},{-159,8451612352331122u},{-159,9258989937491712u},{-159,10014662938942156u},{-159,10040515230797229u},{-159,10066367522652302u},{-159,10092219814507375u},{-159,10118072106362448u},{-159,10470056315232597u},{-159,16903224704662244u},{-159,18517979874983424u},{-159,27373281019894841u},{-159,37035959749966848u},{-159,45083883309717675u},{-159,54746562039789682u},{-159,64409240769861689u},{-159,74071919499933696u},{-159,83760450521860776u},{-159,90167766619435350u},{-159,93423129251932783u},{-159,99830445349507357u},{-159,109493124079579364u},{-159,119155802809651371u},{-159,128818481539723378u},{-159,138481160269795385u},{-159,148143838999867392u},{-159,157806517729939399u},{-159,238311605619302742u},{-159,257636963079446756u},{-159,276962320539590770u},{-159,515273926158893512u},{-159,724597495587980233u},{-159,801898925428556289u},{-159,1030547852317787024u},{-159,1259196779207017759u},{-159,1832446777746343313u},{-159,2061095704635574048u},{-159,2824343915143842309u},{-159,4122191409271148096u},{-159,6946535324414990405u},{-159,8244382818542296192u},{-159,9542230312669601979u},
{-158,120907832589661u},{-158,121305442958516u},{-158,121703053327371u},{-158,134430394070480u},{-158,188520639993756u},{-158,215168152586539u},{-158,268860788140960u},{-158,296303521471453u},{-158,377041279987512u},{-158,457779038503571u},{-158,1018967244427434u},{-158,1022148127378274u},{-158,1049590860708767u},{-158,1211066377740885u},{-158,1372541894773003u},{-158,2099181721417534u},{-158,2422132755481770u},{-158,6756119423493883u},{-158,7402021491622355u},{-158,8047923559750827u},{-158,8345022301959990u},{-158,8396726885670136u},{-158,9016776661943535u},{-158,9636826438216934u},{-158,9688531021927080u},{-158,10308580798200479u},{-158,11600384934457423u},{-158,16095847119501654u},{-158,18033553323887070u},{-158,20617161596400958u},{-158,25112623781445189u},{-158,27696232053959077u},{-158,36067106647774140u},{-158,48313393650360035u},{-158,55392464107918154u},{-158,62471534565476273u},{-158,72134213295548280u},{-158,79213283753106399u},{-158,96626787300720070u},{-158,103705857758278189u},{-158,110784928215836308u},{-158,117863998673394427u},{-158,124943069130952546u},{-158,175840071053826469u},{-158,221569856431672616u},{-158,305950356729806791u},{-158,351680142107652938u},{-158,397409927485499085u},{-158,977738996482382758u},{-158,1012566003577610100u},{-158,1034371560142847710u},{-158,1206387923371613493u},{-158,1389307064882998081u},{-158,1572226206394382669u},{-158,1755145347905767257u},{-158,2412775846743226986u},{-158,2778614129765996162u},{-158,3710623340870532773u},{-158,4076461623893301949u},{-158,5557228259531992324u},{-158,6489237470636528935u},{-158,8152923247786603898u},{-158,8719094175868371333u},{-158,9250438096854911426u},{-158,9651103386972907944u},
{-157,107544315256384u},{-157,134668960291793u},{-157,188282073772443u},{-157,215088630512768u},{-157,242213275548177u},{-157,269337920583586u},{-157,403688792580295u},{-157,484426551096354u},{-157,673026713163881u},{-157,807377585160590u},{-157,834502230195999u},{-157,860354522051072u},{-157,943000810337635u},{-157,968853102192708u},{-157,1480404298324471u},{-157,1614755170321180u},{-157,1669004460391998u},{-157,1803355332388707u},{-157,1937706204385416u},{-157,2960808596648942u},{-157,3095159468645651u},{-157,3472359792780705u},{-157,3606710664777414u},{-157,3741061536774123u},{-157,5921617193297884u},{-157,6055968065294593u},{-157,6944719585561410u},{-157,7213421329554828u},{-157,7482123073548246u},{-157,9393976986078589u},{-157,9662678730072007u},{-157,11843234386595768u},{-157,12111936130589186u},{-157,14426842659109656u},{-157,19325357460144014u},{-157,28853685318219312u},{-157,38650714920288028u},{-157,40831270576811789u},{-157,50628300178880505u},{-157,57707370636438624u},{-157,79481985497099817u},{-157,101256600357761010u},{-157,103437156014284771u},{-157,137189356133538441u},{-157,158963970994199634u},{-157,274378712267076882u},{-157,317927941988399268u},{-157,387612897883430369u},{-157,522621698360445049u},{-157,775225795766860738u},{-157,844910751661891839u},{-157,1071379122894598813u},{-157,1297847494127305787u},{-157,2116622519615488911u},{-157,2595694988254611574u},{-157,3074767456893734237u},{-157,4259380765404686537u},{-157,5191389976509223148u},{-157,6149534913787468474u},{-157,8492625804635664359u},{-157,8518761530809373074u},
{-156,112905626604449u},{-156,118585026247598u},{-156,155796117388969u},{-156,161475517032118u},{-156,188600162067527u},{-156,274381143636567u},{-156,322951034064236u},{-156,414411415276425u},{-156,511551196131763u},{-156,645902068128472u},{-156,694471958556141u},{-156,828822830552850u},{-156,1023102392263526u},{-156,1157453264260235u},{-156,1291804136256944u},{-156,1388943917112282u},{-156,1986276094813085u},{-156,2314906528520470u},{-156,2777887834224564u},{-156,4301182623333555u},{-156,8602365246667110u},{-156,10125660035776101u},{-156,10334433090055552u},{-156,10365374794631969u},{-156,11977585258592477u},{-156,15024174836810459u},{-156,20251320071552202u},{-156,40502640143104404u},{-156,81005280286208808u},{-156,85366391599256330u},{-156,90593536833998073u},{-156,95820682068739816u},{-156,162010560572417616u},{-156,167237705807159359u},{-156,3775081151530822131u},{-156,3785535442000305617u},{-156,7550162303061644262u},{-156,9440316451444426199u},
{-155,111397278655391u},{-155,114295977169146u},{-155,117194675682901u},{-155,120093374196656u},{-155,162865867596815u},{-155,165764566110570u},{-155,231490652852047u},{-155,265803045479663u},{-155,331529132221140u},{-155,397255218962617u},{-155,462981305704094u},{-155,531606090959326u},{-155,597332177700803u},{-155,663058264442280u},{-155,860236524666711u},{-155,925962611408188u},{-155,991688698149665u},{-155,1003283492204685u},{-155,1045819990836122u},{-155,1326116528884560u},{-155,1457568702367514u},{-155,1589020875850468u},{-155,1720473049333422u},{-155,1851925222816376u},{-155,1983377396299330u},{-155,3178041751700936u},{-155,3440946098666844u},{-155,3703850445632752u},{-155,4964240887775835u},{-155,6881892197333688u},{-155,8273734812959725u},{-155,8536639159925633u},{-155,8876864387688038u},{-155,9588256547789265u},{-155,9928481775551670u},{-155,13763784394667376u},{-155,15155627010293413u},{-155,16547469625919450u},{-155,17073278319851266u},{-155,22300423554593009u},{-155,25084108785845083u},{-155,30311254020586826u},{-155,34146556639702532u},{-155,60622508041173652u},{-155,65849653275915395u},{-155,68293113279405064u},{-155,73520258514146807u},{-155,116017870847605561u},{-155,121245016082347304u},{-155,126472161317089047u},{-155,742471081742784243u},{-155,752925372212267729u},{-155,763379662681751215u},{-155,1132001630935772465u},{-155,1505850744424535458u},{-155,1879699857913298451u},{-155,1900608438852265423u},{-155,2264003261871544930u},{-155,2637852375360307923u},{-155,3011701488849070916u},{-155,4528006523743089860u},{-155,4901855637231852853u},{-155,9056013047486179720u},{-155,9803711274463705706u},
{-154,130292694077452u},{-154,132611652888456u},{-154,198337739629933u},{-154,200656698440937u},{-154,265223305776912u},{-154,396675479259866u},{-154,462401566001343u},{-154,530446611553824u},{-154,793350958519732u},{-154,856758086450205u},{-154,924803132002686u},{-154,992848177555167u},{-154,1060893223107648u},{-154,1586701917039464u},{-154,1654746962591945u},{-154,1917651309557853u},{-154,1985696355110334u},{-154,2053741400662815u},{-154,3241448879631409u},{-154,3309493925183890u},{-154,3903347664668187u},{-154,3971392710220668u},{-154,6550942804815299u},{-154,6618987850367780u},{-154,7738650283783893u},{-154,7806695329336374u},{-154,7874740374888855u},{-154,7942785420441336u},{-154,8010830465993817u},{-154,13033840564078117u},{-154,13101885609630598u},{-154,13169930655183079u},{-154,13237975700735560u},{-154,13306020746288041u},{-154,15749480749777710u},{-154,21112716075624415u},{-154,26339861310366158u},{-154,47452577385990573u},{-154,52679722620732316u},{-154,100132300006722889u},{-154,104815084877044784u},{-154,105359445241464632u},{-154,105903805605884480u},{-154,142221642066866757u},{-154,152675932536350243u},{-154,226400326187154493u},{-154,305351865072700486u},{-154,384303403958246479u},{-154,452800652374308986u},{-154,610703730145400972u},{-154,826649765863071979u},{-154,905601304748617972u},{-154,963644262695196993u},{-154,989235628504485860u},{-154,1279450418237380965u},{-154,1595256573779564937u},{-154,1653299531726143958u},{-154,1811202609497235944u},{-154,2500857878528182909u},{-154,3248556105505708895u},{-154,3622405218994471888u},{-154,5059758715002944839u},{-154,6497112211011417790u},{-154,7244810437988943776u},{-154,8682163933997416727u},
{-153,107944489359568u},{-153,119698331421261u},{-153,131452173482954u},{-153,143206015544647u},{-153,171351617290041u},{-153,239396662842522u},{-153,330949392518389u},{-153,342703234580082u},{-153,410748280132563u},{-153,661898785036778u},{-153,685406469160164u},{-153,753451514712645u},{-153,821496560265126u},{-153,889541605817607u},{-153,1255752524521075u},{-153,1323797570073556u},{-153,1574948074977771u},{-153,1642993120530252u},{-153,2579550094594631u},{-153,2647595140147112u},{-153,3149896149955542u},{-153,4222543215124883u},{-153,5295190280294224u},{-153,6299792299911084u},{-153,8445086430249766u},{-153,10046020196168600u},{-153,10318200378378524u},{-153,10590380560588448u},{-153,12599584599822168u},{-153,16890172860499532u},{-153,24262612225579957u},{-153,34716902695063443u},{-153,49461781425224293u},{-153,68497248416062507u},{-153,95177334954191070u},{-153,97050448902319828u},{-153,98923562850448586u},{-153,118895586815351179u},{-153,136994496832125014u},{-153,156966520797027607u},{-153,255890083647476193u},{-153,295834131577281379u},{-153,373849113488762993u},{-153,511780167294952386u},{-153,649711221101141779u},{-153,689655269030946965u},{-153,747698226977525986u},{-153,965517376643325751u},{-153,1023560334589904772u},{-153,1241379484255704537u},{-153,1299422442202283558u},{-153,1713215603620851737u},{-153,2598844884404567116u},{-153,3760336272800661281u},{-153,5197689768809134232u},{-153,6083319049592849611u},{-153,7520672545601322562u},{-153,8958026041609795513u},
{-152,106152941513434u},{-152,109367674247505u},{-152,123967886085072u},{-152,127182618819143u},{-152,150690302942529u},{-152,183105459351734u},{-152,218735348495010u},{-152,251150504904215u},{-152,301380605885058u},{-152,369425651437539u},{-152,434255964255949u},{-152,502301009808430u},{-152,602761211770116u},{-152,871726661245969u},{-152,1001387286882789u},{-152,1004602019616860u},{-152,1007816752350931u},{-152,1011031485085002u},{-152,1205522423540232u},{-152,1743453322491938u},{-152,1876328680862829u},{-152,2009204039233720u},{-152,2816100387661279u},{-152,3081851104403061u},{-152,3752657361725658u},{-152,5227145234741743u},{-152,6568757749386937u},{-152,7505314723451316u},{-152,8707622414257477u},{-152,9517733495419107u},{-152,10454290469483486u},{-152,13137515498773874u},{-152,14074072472838253u},{-152,19035466990838214u},{-152,28148144945676506u},{-152,31767926949031273u},{-152,63535853898062546u},{-152,67155635901417313u},{-152,76268313856255605u},{-152,83507877862965139u},{-152,90747441869674673u},{-152,97987005876384207u},{-152,134311271802834626u},{-152,137931053806189393u},{-152,181494883739349346u},{-152,225058713672509299u},{-152,239537841685928367u},{-152,275862107612378786u},{-152,319425937545538739u},{-152,362989767478698692u},{-152,551724215224757572u},{-152,885629280783715379u},{-152,972756940650035285u},{-152,1045279026610033374u},{-152,1059884600516355191u},{-152,1350225836142153045u},{-152,1524481155874792857u},{-152,1771258561567430758u},{-152,1945513881300070570u},{-152,2279418946859028377u},{-152,3891027762600141140u},{-152,4312060488025418853u},{-152,8203088250625559993u},{-152,8624120976050837706u},{-152,9117675787436113508u},{-152,9538708512861391221u},{-152,9959741238286668934u},
{-151,100460201961686u},{-151,103674934695757u},{-151,106889667429828u},{-151,106996799057226u},{-151,119909295807209u},{-151,174988278796008u},{-151,200920403923372u},{-151,268965449475853u},{-151,320829699730581u},{-151,401840807846744u},{-151,456919790835543u},{-151,722670507577325u},{-151,803681615693488u},{-151,878263258341509u},{-151,913839581671086u},{-151,959274366457672u},{-151,994850689787249u},{-151,1607363231386976u},{-151,1688374339503139u},{-151,2278169488709573u},{-151,2440191704941899u},{-151,3376748679006278u},{-151,3457759787122441u},{-151,4556338977419146u},{-151,4880383409883798u},{-151,5978962600180503u},{-151,6915519574244882u},{-151,8338143197006239u},{-151,9112677954838292u},{-151,9760766819767596u},{-151,10535301577599649u},{-151,11957925200361006u},{-151,12732459958193059u},{-151,15253662771251121u},{-151,16676286394012478u},{-151,21070603155199298u},{-151,22493226777960655u},{-151,30507325542502242u},{-151,50803393939869487u},{-151,69676838714475375u},{-151,81310719482371729u},{-151,101606787879738974u},{-151,104578481018164437u},{-151,162621438964743458u},{-151,194551388130007057u},{-151,270045167228430609u},{-151,389102776260014114u},{-151,540090334456861218u},{-151,778205552520028228u},{-151,914587536810553515u},{-151,935136496993726258u},{-151,969785247511609822u},{-151,990334207694782565u},{-151,1080180668913722436u},{-151,1135378379614778743u},{-151,1501213394339000149u},{-151,1556411105040056456u},{-151,3112822210080112912u},{-151,4852150822482280071u},{-151,5694216273332835497u},{-151,8330808047286614389u},{-151,9704301644964560142u},
{-150,144534101515465u},{-150,156192844660039u},{-150,231374581203915u},{-150,289068203030930u},{-150,358420568002519u},{-150,520442784234845u},{-150,578136406061860u},{-150,716841136005038u},{-150,821169730410349u},{-150,936556974064379u},{-150,1040885568469690u},{-150,1156272812123720u},{-150,1260601406529031u},{-150,1538010866415387u},{-150,3619782003354767u},{-150,4498645355592131u},{-150,5377508707829495u},{-150,6695803736185541u},{-150,7239564006709534u},{-150,8997290711184262u},{-150,10084811252232248u},{-150,10211257145134997u},{-150,10628571522756241u},{-150,10755017415658990u},{-150,13935367742895075u},{-150,17994581422368524u},{-150,27870735485790150u},{-150,43563829933159953u},{-150,55741470971580300u},{-150,63316138060003205u},{-150,79552992777897001u},{-150,87127659866319906u},{-150,88758940677891885u},{-150,94158566684218818u},{-150,96333607766314790u},{-150,119057609031583505u},{-150,166680652644216907u},{-150,238115218063167010u},{-150,278163594587377507u},{-150,333361305288433814u},{-150,516278812650544517u},{-150,802017074326344929u},{-150,1032557625301089034u},{-150,1183001423227412145u},{-150,1263098176275833139u},{-150,1604034148652689858u},{-150,2215559048528501179u},{-150,3057624499379056605u},{-150,4431118097057002358u},{-150,6115248998758113210u},{-150,6265692796684436321u},{-150,8711792396187681605u},{-150,8862236194114004716u},
{-149,104088556846969u},{-149,115627281212372u},{-149,127166005577775u},{-149,162022216232326u},{-149,185099664963132u},{-149,208177113693938u},{-149,231254562424744u},{-149,254332011155550u},{-149,370199329926264u},{-149,416354227387876u},{-149,462509124849488u},{-149,589915167985605u},{-149,682224962908829u},{-149,832708454775752u},{-149,925018249698976u},{-149,1017328044622200u},{-149,1041365643586374u},{-149,1075501741565899u},{-149,1121656639027511u},{-149,1665416909551504u},{-149,1908210196341651u},{-149,2151003483131798u},{-149,2301486974998721u},{-149,2787073548579015u},{-149,3272660122159309u},{-149,3816420392683302u},{-149,4302006966263596u},{-149,5574147097158030u},{-149,7089080514842611u},{-149,8604013932527192u},{-149,9205947899994884u},{-149,9633360776631479u},{-149,11148294194316060u},{-149,12663227612000641u},{-149,14178161029685222u},{-149,15693094447369803u},{-149,17751788135578377u},{-149,19266721553262958u},{-149,20781654970947539u},{-149,23811521806316701u},{-149,25326455224001282u},{-149,26841388641685863u},{-149,41563309941895078u},{-149,44593176777264240u},{-149,47623043612633402u},{-149,50652910448002564u},{-149,53682777283371726u},{-149,83126619883790156u},{-149,89186353554528480u},{-149,95246087225266804u},{-149,101305820896005128u},{-149,135294463749477301u},{-149,144384064255584787u},{-149,190492174450533608u},{-149,236600284645482429u},{-149,288768128511169574u},{-149,322756771364641747u},{-149,380984348901067216u},{-149,473200569290964858u},{-149,611524899875811321u},{-149,795957340655606605u},{-149,946401138581929716u},{-149,1014378424288874062u},{-149,1062856293654780654u},{-149,1096844936508252827u},{-149,1223049799751622642u},{-149,1373493597677945753u},{-149,1742358479237536321u},{-149,2446099599503245284u},{-149,2596543397429568395u},{-149,3484716958475072642u},{-149,4372890519520576889u},{-149,4892199199006490568u},{-149,5042642996932813679u},{-149,6969433916950145284u},{-149,7119877714876468395u},{-149,8896224836967476889u},{-149,9032179408381365581u},{-149,9182623206307688692u},{-149,9333067004234011803u},
{-148,101732804462220u},{-148,108560024058125u},{-148,117983033597121u},{-148,124810253193026u},{-148,196638389328535u},{-148,203465608924440u},{-148,235966067194242u},{-148,321448642521561u},{-148,393276778657070u},{-148,471932134388484u},{-148,557414709715803u},{-148,642897285043122u},{-148,872036132641459u},{-148,912999450216889u},{-148,943864268776968u},{-148,974729087337047u},{-148,998482025544208u},{-148,1029346844104287u},{-148,1114829419431606u},{-148,1200311994758925u},{-148,2144176263535893u},{-148,2229658838863212u},{-148,2315141414190531u},{-148,4459317677726424u},{-148,5974251095411005u},{-148,7232736787113629u},{-148,7574667088422905u},{-148,8918635355452848u},{-148,10262603622482791u},{-148,10604533923792067u},{-148,11948502190822010u},{-148,13292470457851953u},{-148,17837270710905696u},{-148,22211105813304801u},{-148,23897004381644020u},{-148,31300706319412287u},{-148,35674541421811392u},{-148,52167843865687145u},{-148,62601412638824574u},{-148,71349082843622784u},{-148,87842385287498537u},{-148,104335687731374290u},{-148,105337725697094957u},{-148,159191468131121321u},{-148,175684770574997074u},{-148,318382936262242642u},{-148,334876238706118395u},{-148,519308679485913679u},{-148,636765872524485284u},{-148,787209670450808395u},{-148,954146770821007259u},{-148,972644149196324346u},{-148,1038617358971827358u},{-148,1423975542975293679u},{-148,1926790920017331605u},{-148,2077234717943654716u},{-148,2697507288024264247u},{-148,2847951085950587358u},{-148,4774742005967918963u},{-148,5695902171901174716u},{-148,6316174741981784247u},{-148,7387778705841363111u},{-148,8628323846002582173u},{-148,9549484011935837926u},
{-147,157310711462828u},{-147,162772487139552u},{-147,240062398951785u},{-147,314621422925656u},{-147,394642222576251u},{-147,480124797903570u},{-147,725648972532079u},{-147,789284445152502u},{-147,960249595807140u},{-147,1023885068427563u},{-147,1194850219082201u},{-147,1365815369736839u},{-147,1514933417684581u},{-147,2389700438164402u},{-147,3029866835369162u},{-147,3904633855848983u},{-147,4779400876328804u},{-147,6059733670738324u},{-147,6934500691218145u},{-147,7809267711697966u},{-147,10433568773137429u},{-147,19117603505315216u},{-147,20867137546274858u},{-147,25240972648673963u},{-147,41734275092549716u},{-147,66975247741223679u},{-147,91468724314658667u},{-147,96462784547055901u},{-147,110459056874733037u},{-147,133950495482447358u},{-147,157441934090161679u},{-147,267900990964894716u},{-147,314883868180323358u},{-147,385358184003466321u},{-147,479323938434323605u},{-147,629767736360646716u},{-147,770716368006932642u},{-147,827194411502398469u},{-147,958647876868647210u},{-147,1015125920364113037u},{-147,1203057429225827605u},{-147,1259535472721293432u},{-147,1541432736013865284u},{-147,2462592901947121037u},{-147,4004025637960986321u},{-147,7086891109988716889u},{-147,8008051275921972642u},{-147,8929211441855228395u},
{-146,117490895187557u},{-146,138575663694347u},{-146,170583983554585u},{-146,192049919161428u},{-146,384099838322856u},{-146,490667182156965u},{-146,618700461597917u},{-146,768199676645712u},{-146,917698891693507u},{-146,981334364313930u},{-146,1003562634120879u},{-146,1044969836934353u},{-146,1067198106741302u},{-146,1108605309554776u},{-146,1237400923195834u},{-146,1386900138243629u},{-146,2624301061439463u},{-146,2773800276487258u},{-146,5547600552974516u},{-146,7147635378886363u},{-146,9091125174507698u},{-146,9196167849941595u},{-146,9301210525375492u},{-146,9794164710132775u},{-146,9899207385566672u},{-146,11095201105949032u},{-146,14295270757772726u},{-146,16194304013780163u},{-146,34287641283567763u},{-146,70474315823142963u},{-146,88268654662834973u},{-146,92066721174849847u},{-146,95864787686864721u},{-146,99662854198879595u},{-146,140948631646285926u},{-146,191729575373729442u},{-146,240611485845165521u},{-146,383459150747458884u},{-146,481222971690331042u},{-146,627868703104639279u},{-146,766918301494917768u},{-146,823396344990383595u},{-146,962445943380662084u},{-146,1018923986876127911u},{-146,1101495541770940573u},{-146,1255737406209278558u},{-146,1785842288371045679u},{-146,3041579694580324237u},{-146,3571684576742091358u},{-146,4101789458903858479u},{-146,8733683799969484079u},
{-145,101969223032698u},{-145,107329678034215u},{-145,111165464635520u},{-145,136467186843668u},{-145,166367029853227u},{-145,196266872862786u},{-145,272934373687336u},{-145,302834216696895u},{-145,332734059706454u},{-145,725267805432026u},{-145,755167648441585u},{-145,785067491451144u},{-145,912338436691990u},{-145,926895133296329u},{-145,972138122711108u},{-145,986694819315447u},{-145,1629934668921406u},{-145,1689734354940524u},{-145,1749534040959642u},{-145,1839233569988319u},{-145,1958832942026555u},{-145,3499068081919284u},{-145,3678467139976638u},{-145,5338301651907603u},{-145,5577500395984075u},{-145,7356934279953276u},{-145,8777570047807769u},{-145,9255967535960713u},{-145,10676603303815206u},{-145,11155000791968150u},{-145,12575636559822643u},{-145,16134504327761045u},{-145,19932570839775919u},{-145,25151273119645286u},{-145,39865141679551838u},{-145,45083843959421205u},{-145,79730283359103676u},{-145,84948985638973043u},{-145,100141251687032539u},{-145,100605092478581144u},{-145,105359953966901906u},{-145,110578656246771273u},{-145,164679268998076719u},{-145,169897971277946086u},{-145,329358537996153438u},{-145,334577240276022805u},{-145,658717075992306876u},{-145,663935778272176243u},{-145,1322652854264483119u},{-145,1327871556544352486u},{-145,2645305708528966238u},{-145,2650524410808835605u},{-145,5290611417057932476u},{-145,5295830119337801843u},{-145,8466022007748665835u},{-145,8476459412308404569u},
{-144,121133686678758u},{-144,151033529688317u},{-144,242267373357516u},{-144,302067059376634u},{-144,391766588405311u},{-144,511365960443547u},{-144,604134118753268u},{-144,783533176810622u},{-144,876301335120343u},{-144,929963762577373u},{-144,969069493430064u},{-144,1022731920887094u},{-144,1115500079196815u},{-144,1208268237506536u},{-144,1354698823273287u},{-144,1567066353621244u},{-144,1659834511930965u},{-144,2231000158393630u},{-144,3226900865552209u},{-144,4462000316787260u},{-144,4554768475096981u},{-144,6361033572794697u},{-144,6453801731104418u},{-144,8924000633574520u},{-144,9016768791884241u},{-144,9109536950193962u},{-144,11394199536044622u},{-144,11486967694354343u},{-144,12814835303899115u},{-144,12907603462208836u},{-144,18033537583768482u},{-144,30848372887667597u},{-144,36067075167536964u},{-144,66915448055204561u},{-144,92823423137931954u},{-144,97299980151323553u},{-144,98042125417801321u},{-144,128612193830539755u},{-144,133830896110409122u},{-144,262443089940948877u},{-144,267661792220818244u},{-144,530104882161767121u},{-144,1054991062043664875u},{-144,1060209764323534242u},{-144,1065428466603403609u},{-144,1476987486861130825u},{-144,1693204401549733167u},{-144,2120419528647068484u},{-144,3386408803099466334u},{-144,3813623930196801651u},{-144,6772817606198932668u},{-144,7200032733296267985u},{-144,7627247860393603302u},{-144,8054462987490938619u},
{-143,223100015839363u},{-143,331966902386193u},{-143,446200031678726u},{-143,560433160971259u},{-143,663933804772386u},{-143,892400063357452u},{-143,985168221667173u},{-143,1028098163632797u},{-143,1120866321942518u},{-143,1327867609544772u},{-143,1784800126714904u},{-143,2562967060779823u},{-143,3569600253429808u},{-143,5125934121559646u},{-143,9430771367088749u},{-143,9801844000327633u},{-143,9880795609880408u},{-143,10251868243119292u},{-143,13457304137688689u},{-143,15470570522988659u},{-143,17483836908288629u},{-143,25722438766107951u},{-143,34967673816577258u},{-143,51444877532215902u},{-143,97671052784562437u},{-143,102889755064431804u},{-143,108108457344301171u},{-143,145089397546178399u},{-143,210998212408732975u},{-143,295397497372226165u},{-143,421996424817465950u},{-143,590794994744452330u},{-143,596013697024321697u},{-143,843992849634931900u},{-143,933610836878294457u},{-143,1023228824121657014u},{-143,1091972002245542103u},{-143,1112846811365019571u},{-143,1181589989488904660u},{-143,1440006546659253597u},{-143,2115200826367199117u},{-143,2880013093318507194u},{-143,3982422500123788031u},{-143,5760026186637014388u},{-143,6862435593442295225u},{-143,7964845000247576062u},{-143,9067254407052856899u},{-143,9479713475796167433u},{-143,9536219152389147152u},{-143,9700699068521847483u},{-143,9921684661247527533u},
{-142,103500643801127u},{-142,109175292873384u},{-142,113616316639425u},{-142,114849941945641u},{-142,141372749347602u},{-142,168512369402671u},{-142,321234416894787u},{-142,375513657004925u},{-142,429792897115063u},{-142,549700675479853u},{-142,658259155700129u},{-142,751027314009850u},{-142,859585794230126u},{-142,929655356250819u},{-142,945445678161374u},{-142,1300727989489703u},{-142,1502054628019700u},{-142,1703381266549697u},{-142,2214593023829967u},{-142,2617246300889961u},{-142,5621355556929361u},{-142,6426662111049349u},{-142,7231968665169337u},{-142,7634621942229331u},{-142,9245235050469307u},{-142,10855848158709283u},{-142,14463937330338674u},{-142,15269243884458662u},{-142,18490470100938614u},{-142,23709172380807981u},{-142,26930398597287933u},{-142,42199642481746595u},{-142,59079499474445233u},{-142,84399284963493190u},{-142,106497844236061195u},{-142,118158998948890466u},{-142,123377701228759833u},{-142,168798569926986380u},{-142,190897129199554385u},{-142,236317997897780932u},{-142,337597139853972760u},{-142,359695699126540765u},{-142,472635995795561864u},{-142,675194279707945520u},{-142,697292838980513525u},{-142,945271991591123728u},{-142,964923050557510659u},{-142,987021609830078664u},{-142,1372487118688459045u},{-142,2182720254337993669u},{-142,2744974237376918090u},{-142,3307228220415842511u},{-142,4927694491714911759u},{-142,5489948474753836180u},{-142,6052202457792760601u},{-142,8257021271403322275u},{-142,9855388983429823518u},
{-141,147047398419859u},{-141,150205462801970u},{-141,153363527184081u},{-141,297252861221829u},{-141,300410925603940u},{-141,303568989986051u},{-141,600821851207880u},{-141,603979915589991u},{-141,607137979972102u},{-141,789516232209433u},{-141,795832360973655u},{-141,802148489737877u},{-141,808464618502099u},{-141,814780747266321u},{-141,821096876030543u},{-141,1201643702415760u},{-141,1207959831179982u},{-141,1214275959944204u},{-141,1604296979475754u},{-141,2815414875037847u},{-141,5630829750075694u},{-141,7640938070993553u},{-141,8439928496349319u},{-141,9238918921705085u},{-141,10037909347060851u},{-141,10462669074795622u},{-141,10836899772416617u},{-141,11261659500151388u},{-141,12460145138185037u},{-141,16879856992698638u},{-141,21299568847212239u},{-141,24920290276370074u},{-141,29340002130883675u},{-141,33759713985397276u},{-141,38179425839910877u},{-141,42599137694424478u},{-141,47018849548938079u},{-141,54260292407253749u},{-141,58680004261767350u},{-141,63099716116280951u},{-141,71939139825308153u},{-141,76358851679821754u},{-141,80778563534335355u},{-141,94786160493118148u},{-141,95261449250966695u},{-141,99205872347631749u},{-141,99681161105480296u},{-141,121779720378048301u},{-141,126199432232561902u},{-141,130619144087075503u},{-141,139458567796102705u},{-141,143878279650616306u},{-141,148297991505129907u},{-141,261238288174151006u},{-141,265658000028664607u},{-141,270077711883178208u},{-141,274497423737691809u},{-141,278917135592205410u},{-141,283336847446719011u},{-141,540155423766356416u},{-141,548994847475383618u},{-141,557834271184410820u},{-141,1080310847532712832u},{-141,1097989694950767236u},{-141,1115668542368821640u},{-141,1651404254280664455u},{-141,2195979389901534472u},{-141,2740554525522404489u},{-141,3302808508561328910u},{-141,3847383644182198927u},{-141,4391958779803068944u},{-141,4936533915423938961u},{-141,5481109051044808978u},{-141,6025684186665678995u},{-141,6061041881501787803u},{-141,6605617017122657820u},{-141,7150192152743527837u},{-141,9328492695227007905u},{-141,9873067830847877922u},
{-140,113848241477354u},{-140,117006305859465u},{-140,120164370241576u},{-140,123322434623687u},{-140,126480499005798u},{-140,159166472194731u},{-140,240328740483152u},{-140,318332944389462u},{-140,480657480966304u},{-140,636665888778924u},{-140,886468822408409u},{-140,961314961932608u},{-140,1036161101456807u},{-140,1111007240981006u},{-140,1136271756037894u},{-140,1847783784341017u},{-140,3695567568682034u},{-140,5868000426176735u},{-140,8764577569503003u},{-140,9464404745924147u},{-140,9587885104269192u},{-140,9763789304020943u},{-140,9887269662365988u},{-140,10362558420214535u},{-140,11736000852353470u},{-140,16155712706867071u},{-140,17529155139006006u},{-140,19052289850193339u},{-140,23472001704706940u},{-140,27891713559220541u},{-140,32311425413734142u},{-140,36731137268247743u},{-140,42524291554900279u},{-140,46944003409413880u},{-140,51363715263927481u},{-140,55783427118441082u},{-140,60203138972954683u},{-140,64622850827468284u},{-140,76209159400773356u},{-140,85048583109800558u},{-140,93888006818827760u},{-140,102727430527854962u},{-140,111566854236882164u},{-140,120406277945909366u},{-140,129245701654936568u},{-140,223133708473764328u},{-140,330280850856132891u},{-140,446267416947528656u},{-140,562253983038924421u},{-140,660561701712265782u},{-140,892534833895057312u},{-140,973163705150344269u},{-140,1053792576405631226u},{-140,1124507966077848842u},{-140,1205136837333135799u},{-140,1321123403424531564u},{-140,1865698539045401581u},{-140,2410273674666271598u},{-140,2642246806849063128u},{-140,3731397078090803162u},{-140,4820547349332543196u},{-140,7462794156181606324u},{-140,9560465827409799435u},{-140,9682069643588095985u},{-140,9762698514843382942u},{-140,9843327386098669899u},
{-139,106047821086723u},{-139,106237302216016u},{-139,162324536576842u},{-139,187210089375144u},{-139,212285123302739u},{-139,324649073153684u},{-139,399495212677883u},{-139,724144285831567u},{-139,798990425355766u},{-139,948303742145578u},{-139,949819591179922u},{-139,972999813814587u},{-139,974515662848931u},{-139,999211734517940u},{-139,1173600085235347u},{-139,1448288571663134u},{-139,1722977058090921u},{-139,2072511684042907u},{-139,2347200170470694u},{-139,2621888656898481u},{-139,2896577143326268u},{-139,4145023368085814u},{-139,4694400340941388u},{-139,5243777313796962u},{-139,8290046736171628u},{-139,9388800681882776u},{-139,13808512536396377u},{-139,14907266482107525u},{-139,18777601363765552u},{-139,24296067163990301u},{-139,27617025072792754u},{-139,32036736927306355u},{-139,37555202727531104u},{-139,55234050145585508u},{-139,64073473854612710u},{-139,75110405455062208u},{-139,87270787072891863u},{-139,98307718673341361u},{-139,110468100291171016u},{-139,162381192527954071u},{-139,208775818964512377u},{-139,312602003438078487u},{-139,324762385055908142u},{-139,405391256311195099u},{-139,544575135620870017u},{-139,730153641367103241u},{-139,915732147113336465u},{-139,975213036611752511u},{-139,976534055202484740u},{-139,991867218299102794u},{-139,993188236889835023u},{-139,1008521399986453077u},{-139,1089150271241740034u},{-139,1460307282734206482u},{-139,1540936153989493439u},{-139,1912093165481959887u},{-139,2097671671228193111u},{-139,2178300542483480068u},{-139,3001243436723699921u},{-139,3824186330963919774u},{-139,4275972213711673179u},{-139,5921858002192112885u},{-139,6002486873447399842u},{-139,7648372661927839548u},{-139,7729001533183126505u},{-139,8310057813657485487u},{-139,8390686684912772444u},{-139,8471315556168059401u},{-139,8551944427423346358u},{-139,8632573298678633315u},{-139,8713202169933920272u},
{-138,174767312975993u},{-138,184797326547031u},{-138,264658472856749u},{-138,349534625951986u},{-138,369594653094062u},{-138,529316945713498u},{-138,634253125950811u},{-138,824065459283361u},{-138,929001639520674u},{-138,953697711189683u},{-138,1058633891426996u},{-138,1163570071664309u},{-138,1268506251901622u},{-138,1373442432138935u},{-138,2537012503803244u},{-138,2981453296421505u},{-138,3530830269277079u},{-138,4419711854513601u},{-138,5962906592843010u},{-138,6407347385461271u},{-138,7061660538554158u},{-138,8839423709027202u},{-138,9493736862120089u},{-138,10148050015212976u},{-138,10617186879500246u},{-138,11271500032593133u},{-138,11925813185686020u},{-138,12814694770922542u},{-138,15246771094488473u},{-138,25629389541845084u},{-138,28061465865411015u},{-138,48826702760124237u},{-138,51258779083690168u},{-138,96912700365026006u},{-138,97653405520248474u},{-138,98394110675470942u},{-138,99715129266203171u},{-138,178282276775535431u},{-138,183146429422667293u},{-138,188010582069799155u},{-138,275935682295783905u},{-138,366292858845334586u},{-138,451785882747753405u},{-138,551871364591567810u},{-138,632500235846854767u},{-138,732585717690669172u},{-138,822942894240219853u},{-138,903571765495506810u},{-138,984200636750793767u},{-138,1103742729183135620u},{-138,1184371600438422577u},{-138,1265000471693709534u},{-138,1465171435381338344u},{-138,1545800306636625301u},{-138,1726514659735726663u},{-138,2368743200876845154u},{-138,3091600613273250602u},{-138,3372400448216166369u},{-138,3453029319471453326u},{-138,4737486401753690308u},{-138,4818115273008977265u},{-138,6102572355291214247u},{-138,6183201226546501204u},{-138,6744800896432332738u},{-138,6906058638942906652u},{-138,8109886849969856677u},{-138,8271144592480430591u},{-138,9474972803507380616u},{-138,9636230546017954530u},
{-137,113887399999530u},{-137,131789839523964u},{-137,142898646903823u},{-137,274688486427787u},{-137,549376972855574u},{-137,596290659284301u},{-137,1004926572853694u},{-137,1051840259282421u},{-137,1098753945711148u},{-137,1543194738329409u},{-137,1637022111186863u},{-137,2385162637137204u},{-137,4022184748324067u},{-137,4770325274274408u},{-137,5612293173082203u},{-137,8044369496648134u},{-137,9540650548548816u},{-137,9723348380445142u},{-137,9733262208082306u},{-137,9913481583069341u},{-137,11224586346164406u},{-137,13656662669730337u},{-137,22449172692328812u},{-137,32737963766827969u},{-137,37602116413959831u},{-137,55187136459156781u},{-137,75204232827919662u},{-137,89796690769315248u},{-137,90357176549550681u},{-137,90917662329786114u},{-137,110374272918313562u},{-137,130391369287076443u},{-137,150408465655839324u},{-137,180714353099101362u},{-137,220748545836627124u},{-137,361428706198202724u},{-137,441497091673254248u},{-137,602194348403592729u},{-137,642228541141118491u},{-137,722857412396405448u},{-137,882994183346508496u},{-137,963623054601795453u},{-137,1044251925857082410u},{-137,1123759825551898501u},{-137,1204388696807185458u},{-137,1927246109203590906u},{-137,2168011751408980911u},{-137,2489406264869657873u},{-137,2970937549280437883u},{-137,3854492218407181812u},{-137,4336023502817961822u},{-137,6825429767687619695u},{-137,9555601674762667573u},{-137,9939689514511097636u},{-137,9957625059478631492u},{-137,9975560604446165348u},
{-136,104936180237313u},{-136,110371085952973u},{-136,118762440475002u},{-136,135306153570521u},{-136,154567319523870u},{-136,182219839999248u},{-136,229133526427975u},{-136,289873473094391u},{-136,383700845951845u},{-136,458267052855950u},{-136,505180739284677u},{-136,579746946188782u},{-136,841967898807795u},{-136,916534105711900u},{-136,969360689753365u},{-136,974317603571947u},{-136,979274517390529u},{-136,1010361478569354u},{-136,1421714844996577u},{-136,1683935797615590u},{-136,1833068211423800u},{-136,2020722957138708u},{-136,2843429689993154u},{-136,3105650642612167u},{-136,4601931694512849u},{-136,5686859379986308u},{-136,6771787065459767u},{-136,7296228970697793u},{-136,8643377608790265u},{-136,9203863389025698u},{-136,10813232979737183u},{-136,12983088350684101u},{-136,15152943721631019u},{-136,17847240997815963u},{-136,22186951739709799u},{-136,25966176701368202u},{-136,30305887443262038u},{-136,36254967775867359u},{-136,44373903479419598u},{-136,60051289106288643u},{-136,72509935551734718u},{-136,88187321178603763u},{-136,104425192585708241u},{-136,120102578212577286u},{-136,120663063992812719u},{-136,160697256730338481u},{-136,208850385171416482u},{-136,273241385019598961u},{-136,321394513460676962u},{-136,369547641901754963u},{-136,931707797567821930u},{-136,992175396954356378u},{-136,994449772514744268u},{-136,995522095416045897u},{-136,997796470976433787u},{-136,998868793877735416u},{-136,1172473439773211935u},{-136,1365085953537523939u},{-136,1557698467301835943u},{-136,1750310981066147947u},{-136,2344946879546423870u},{-136,2730171907075047878u},{-136,3115396934603671886u},{-136,3806339089966103811u},{-136,3998951603730415815u},{-136,5460343814150095756u},{-136,6921736024569775697u},{-136,7997903207460831630u},{-136,8688845362823263555u},{-136,9379787518185695480u},{-136,9538803317575327662u},
{-135,108740614238275u},{-135,123653855619096u},{-135,138567096999917u},{-135,183306821142380u},{-135,277134193999834u},{-135,306960676761476u},{-135,336787159523118u},{-135,366613642284760u},{-135,411353366427223u},{-135,673574319046236u},{-135,733227284569520u},{-135,786662857857039u},{-135,822706732854446u},{-135,905968788903607u},{-135,942012663901014u},{-135,1025274719950175u},{-135,1144580650996743u},{-135,1347148638092472u},{-135,1466454569139040u},{-135,1728675521758053u},{-135,2050549439900350u},{-135,3457351043516106u},{-135,5305332496320727u},{-135,5949080332605321u},{-135,6914702087032212u},{-135,7475187867267645u},{-135,8762683539836833u},{-135,10050179212406021u},{-135,10610664992641454u},{-135,11898160665210642u},{-135,14389889954299857u},{-135,17525367079673666u},{-135,25644302783225905u},{-135,28779779908599714u},{-135,51288605566451810u},{-135,86899825506034575u},{-135,93170779756782193u},{-135,99230512671214101u},{-135,99457950227252890u},{-135,99685387783291679u},{-135,144459385323234003u},{-135,186341559513564386u},{-135,234494687954642387u},{-135,288918770646468006u},{-135,372683119027128772u},{-135,468989375909284774u},{-135,607177806981771159u},{-135,745366238054257544u},{-135,799790320746083163u},{-135,879298220440899254u},{-135,937978751818569548u},{-135,1076167182891055933u},{-135,1599580641492166326u},{-135,1737769072564652711u},{-135,1875957503637139096u},{-135,3199161282984332652u},{-135,5983757272751206149u},{-135,6260134134896178919u},{-135,6398322565968665304u},{-135,8630164831445593261u},{-135,9182918555735538801u},{-135,9735672280025484341u},
{-134,115575495705109u},{-134,118062452599415u},{-134,146645456913904u},{-134,205054943990035u},{-134,293290913827808u},{-134,410109887980070u},{-134,586581827655616u},{-134,674817797493389u},{-134,820219775960140u},{-134,965621754426891u},{-134,1027761676844481u},{-134,1111023732893642u},{-134,1173163655311232u},{-134,1495037573453529u},{-134,1640439551920280u},{-134,2990075146907058u},{-134,4132168841009495u},{-134,5128860556645181u},{-134,8264337682018990u},{-134,9115627419187925u},{-134,9919766975185226u},{-134,9945795022725289u},{-134,9971823070265352u},{-134,10257721113290362u},{-134,17379965101206915u},{-134,20515442226580724u},{-134,33908640465244895u},{-134,34759930202413830u},{-134,41030884453161448u},{-134,41882174190330383u},{-134,68668570667658725u},{-134,69519860404827660u},{-134,80359189431985026u},{-134,82061768906322896u},{-134,83764348380660766u},{-134,109699455120820173u},{-134,111402034595158043u},{-134,137337141335317450u},{-134,139039720809655320u},{-134,1022594389936399249u},{-134,1077869762365393803u},{-134,1133145134794388357u},{-134,3005697479482851713u},{-134,3226798969198829929u},{-134,6011394958965703426u},{-134,6453597938397659858u},{-134,9348744673022522463u},
{-133,100663954321291u},{-133,106877946563050u},{-133,113091938804809u},{-133,139187986224992u},{-133,151615970708510u},{-133,164043955192028u},{-133,176471939675546u},{-133,188899924159064u},{-133,303231941417020u},{-133,328087910384056u},{-133,352943879351092u},{-133,473489888850807u},{-133,656175820768112u},{-133,826433768201899u},{-133,996582915827494u},{-133,997863794208713u},{-133,999144672589932u},{-133,1142093694102437u},{-133,1312351641536224u},{-133,1482609588970011u},{-133,1823125483837585u},{-133,2454445335638661u},{-133,2624703283072448u},{-133,2794961230506235u},{-133,3475993020241383u},{-133,3646250967675170u},{-133,3816508915108957u},{-133,5930438355880044u},{-133,6100696303313831u},{-133,6270954250747618u},{-133,6951986040482766u},{-133,7122243987916553u},{-133,7292501935350340u},{-133,9647523395120857u},{-133,9817781342554644u},{-133,9988039289988431u},{-133,12882424396362810u},{-133,13052682343796597u},{-133,13222940291230384u},{-133,13903972080965532u},{-133,14074230028399319u},{-133,14244487975833106u},{-133,26786396477328342u},{-133,27126912372195916u},{-133,27467428267063490u},{-133,27807944161931064u},{-133,28148460056798638u},{-133,28488975951666212u},{-133,54253824744391832u},{-133,54934856534126980u},{-133,55615888323862128u},{-133,82232026853756683u},{-133,83594090433226979u},{-133,108507649488783664u},{-133,109869713068253960u},{-133,111231776647724256u},{-133,138188431072486385u},{-133,164464053707513366u},{-133,193463803501480939u},{-133,219739426136507920u},{-133,248739175930475493u},{-133,276376862144972770u},{-133,302652484779999751u},{-133,386927607002961878u},{-133,413203229637988859u},{-133,689580091782961629u},{-133,826406459275977718u},{-133,910681581498939845u},{-133,1004887563403285401u},{-133,1005853212357664340u},{-133,1014818423084668830u},{-133,1379160183565923258u},{-133,1515986551058939347u},{-133,1958189530490895779u},{-133,2179291020206873995u},{-133,2758320367131846516u},{-133,3337349714056819037u},{-133,5211264122324752689u},{-133,6369322816174697731u},{-133,7832758121963583116u},{-133,8717164080827495980u},{-133,8959092938860619993u},{-133,9569846162738500679u},
{-132,121292776566808u},{-132,145401978466751u},{-132,242585553133616u},{-132,316406692967631u},{-132,364625096767517u},{-132,558992246101247u},{-132,729250193535034u},{-132,925110877002950u},{-132,947726544768707u},{-132,970342212534464u},{-132,1117984492202494u},{-132,1288242439636281u},{-132,1458500387070068u},{-132,2065711036971201u},{-132,2235968984404988u},{-132,2406226931838775u},{-132,2917000774140136u},{-132,3087258721573923u},{-132,4812453863677550u},{-132,5152969758545124u},{-132,5493485653412698u},{-132,5834001548280272u},{-132,6174517443147846u},{-132,6685291285449207u},{-132,9624907727355100u},{-132,10305939517090248u},{-132,10986971306825396u},{-132,11668003096560544u},{-132,12349034886295692u},{-132,16991230802539455u},{-132,21973942613650792u},{-132,27637686214497277u},{-132,43947885227301584u},{-132,50292660617883217u},{-132,55275372428994554u},{-132,87895770454603168u},{-132,94240545845184801u},{-132,100585321235766434u},{-132,101481842308466883u},{-132,104205969467407475u},{-132,110550744857989108u},{-132,175791540909206336u},{-132,182136316299787969u},{-132,214756714325396583u},{-132,221101489715978216u},{-132,357927857208994305u},{-132,364272632599575938u},{-132,429513428650793166u},{-132,435858204041374799u},{-132,722200489808570243u},{-132,728545265199151876u},{-132,846337306520423066u},{-132,859026857301586332u},{-132,871716408082749598u},{-132,884405958863912864u},{-132,1164403469240526675u},{-132,1444400979617140486u},{-132,1743432816165499196u},{-132,9557156611957337413u},
{-131,107275315667098u},{-131,122039543633901u},{-131,136803771600704u},{-131,185022175400590u},{-131,296223210967165u},{-131,481245386367755u},{-131,851289737168935u},{-131,962490772735510u},{-131,1073691808302085u},{-131,1080604596469934u},{-131,1184892843868660u},{-131,1191805632036509u},{-131,1473264615036871u},{-131,1924981545471020u},{-131,3398246160507891u},{-131,3849963090942040u},{-131,6796492321015782u},{-131,9513706691788525u},{-131,13592984642031564u},{-131,16310199012804307u},{-131,20841193893481495u},{-131,32620398025608614u},{-131,38965173416190247u},{-131,41682387786962990u},{-131,48027163177544623u},{-131,71585571441798861u},{-131,83364775573925980u},{-131,89709550964507613u},{-131,96054326355089246u},{-131,136826367493016089u},{-131,143171142883597722u},{-131,149515918274179355u},{-131,232880693848105335u},{-131,286342285767195444u},{-131,465761387696210670u},{-131,519222979615300779u},{-131,745758898072824481u},{-131,931522775392421340u},{-131,1038445959230601558u},{-131,1224209836550198417u},{-131,1677281673465245821u},{-131,2262655795780799975u},{-131,2954953101934534347u},{-131,4525311591561599950u},{-131,4924921836557557245u},{-131,5909906203869068694u},{-131,7480264693496134297u},
{-130,103912786746284u},{-130,110825574914133u},{-130,118489284386866u},{-130,126152993859599u},{-130,148017740320472u},{-130,170257947433787u},{-130,192498154547102u},{-130,214738361660417u},{-130,236978568773732u},{-130,296035480640944u},{-130,340515894867574u},{-130,384996309094204u},{-130,429476723320834u},{-130,473957137547464u},{-130,681031789735148u},{-130,769992618188408u},{-130,858953446641668u},{-130,1002311162708943u},{-130,1003216580437720u},{-130,1009223950876792u},{-130,1010129368605569u},{-130,1177229134395927u},{-130,1539985236376816u},{-130,1902741338357705u},{-130,2354458268791854u},{-130,2539292713866223u},{-130,3079970472753632u},{-130,3805482676715410u},{-130,4168238778696299u},{-130,5619263186619855u},{-130,6159940945507264u},{-130,7610965353430820u},{-130,8336477557392598u},{-130,8877155316280007u},{-130,9417833075167416u},{-130,11779204132127119u},{-130,14681252947974231u},{-130,15221930706861640u},{-130,16672955114785196u},{-130,23017730505366829u},{-130,23558408264254238u},{-130,29903183654835871u},{-130,33345910229570392u},{-130,46576138769621067u},{-130,59806367309671742u},{-130,66151142700253375u},{-130,66691820459140784u},{-130,67232498218028193u},{-130,92611599780354725u},{-130,93152277539242134u},{-130,93692955298129543u},{-130,119072056860456075u},{-130,119612734619343484u},{-130,120153412378230893u},{-130,133383640918281568u},{-130,186304555078484268u},{-130,213305689917473027u},{-130,239225469238686968u},{-130,292687061157777077u},{-130,372609110156968536u},{-130,452531159156159995u},{-130,585374122315554154u},{-130,665296171314745613u},{-130,745218220313937072u},{-130,984984367311511449u},{-130,1008741435597175754u},{-130,1013066857668275026u},{-130,1036823925953939331u},{-130,1490436440627874144u},{-130,1650280538626257062u},{-130,1810124636624639980u},{-130,1969968734623022898u},{-130,2209734881620597275u},{-130,3300561077252514124u},{-130,3620249273249279960u},{-130,3939937469246045796u},{-130,5510295958873111399u},{-130,6149672350866643071u},{-130,7240498546498559920u},{-130,7879874938492091592u},{-130,8651012938127242605u},{-130,8838939526482389100u},{-130,9741839133759159454u},{-130,9929765722114305949u},
{-129,100321658043772u},{-129,101284562179190u},{-129,101342048585831u},{-129,309379604908933u},{-129,344963936290237u},{-129,380548267671541u},{-129,433924764743497u},{-129,689927872580474u},{-129,761096535343082u},{-129,839177986273539u},{-129,867849529486994u},{-129,981515311798755u},{-129,1123852637323971u},{-129,1522193070686164u},{-129,2247705274647942u},{-129,3044386141372328u},{-129,3442726574734521u},{-129,4495410549295884u},{-129,6088772282744656u},{-129,6885453149469042u},{-129,8990821098591768u},{-129,9531498857479177u},{-129,11636866806601903u},{-129,12177544565489312u},{-129,13230228540050675u},{-129,18522319956070945u},{-129,23814411372091215u},{-129,26460457080101350u},{-129,37044639912141890u},{-129,42877409087049569u},{-129,47628822744182430u},{-129,69337866167150919u},{-129,90506231831231999u},{-129,100009059145497721u},{-129,102171770181047357u},{-129,102597761767080946u},{-129,138675732334301838u},{-129,181012463662463998u},{-129,239766146997574377u},{-129,362024927324927996u},{-129,399610244995957295u},{-129,441946976324119455u},{-129,724049854649855992u},{-129,761635172320885291u},{-129,846308634977209611u},{-129,883893952648238910u},{-129,921479270319268209u},{-129,959064587990297508u},{-129,1448099709299711984u},{-129,1485685026970741283u},{-129,1730202587625448521u},{-129,1767787905296477820u},{-129,2896199418599423968u},{-129,2933784736270453267u},{-129,3460405175250897042u},{-129,3497990492921926341u},{-129,5792398837198847936u},{-129,5829984154869877235u},{-129,6920810350501794084u},{-129,6958395668172823383u},{-129,6995980985843852682u},{-129,7033566303514881981u},
{-128,101018685501221u},{-128,106752994143912u},{-128,154984422335756u},{-128,160718730978447u},{-128,196303062359751u},{-128,202037371002442u},{-128,392606124719502u},{-128,398340433362193u},{-128,785212249439004u},{-128,790946558081695u},{-128,796680866724386u},{-128,802415175367077u},{-128,2646045708010135u},{-128,3704463991214189u},{-128,4762882274418243u},{-128,5292091416020270u},{-128,7408927982428378u},{-128,9525764548836486u},{-128,10043505073153131u},{-128,10089379542294659u},{-128,10135254011436187u},{-128,10584182832040540u},{-128,14817855964856756u},{-128,19051529097672972u},{-128,21168365664081080u},{-128,29635711929713512u},{-128,38103058195345944u},{-128,62987356467926595u},{-128,79922048999191459u},{-128,84673462656324320u},{-128,88389395264823891u},{-128,92105327873323462u},{-128,95821260481823033u},{-128,122258780327353619u},{-128,125974712935853190u},{-128,156128165389883347u},{-128,159844097998382918u},{-128,176778790529647782u},{-128,282102878325736537u},{-128,319688195996765836u},{-128,353557581059295564u},{-128,564205756651473074u},{-128,601791074322502373u},{-128,669529844447561829u},{-128,707115162118591128u},{-128,744700479789620427u},{-128,1128411513302946148u},{-128,1165996830973975447u},{-128,1203582148645004746u},{-128,1376645006566152957u},{-128,1414230324237182256u},{-128,2331993661947950894u},{-128,3708638668514103851u},{-128,4663987323895901788u},{-128,8372625992410005639u},{-128,9327974647791803576u},
{-127,119400090954452u},{-127,125134399597143u},{-127,152455002973648u},{-127,158189311616339u},{-127,163923620259030u},{-127,316378623232678u},{-127,419926728096007u},{-127,431395345381389u},{-127,529209141602027u},{-127,632757246465356u},{-127,736305351328685u},{-127,1001075196777144u},{-127,1012213264767635u},{-127,1024012431347908u},{-127,1058418283204054u},{-127,1161966388067383u},{-127,1265514492930712u},{-127,2116836566408108u},{-127,2220384671271437u},{-127,2323932776134766u},{-127,4233673132816216u},{-127,4440769342542874u},{-127,8156701951042445u},{-127,8467346265632432u},{-127,8881538685085748u},{-127,9295731104539064u},{-127,12597471293585319u},{-127,13011663713038635u},{-127,16934692531264864u},{-127,25194942587170638u},{-127,29739260034576841u},{-127,33869385062529728u},{-127,50389885174341276u},{-127,54934202621747479u},{-127,67738770125059456u},{-127,72283087572465659u},{-127,96235452901276349u},{-127,100779770348682552u},{-127,105324087796088755u},{-127,109868405243494958u},{-127,114412722690901161u},{-127,163974223026335805u},{-127,210648175592177510u},{-127,248233493263206809u},{-127,290363128381642311u},{-127,421296351184355020u},{-127,458881668855384319u},{-127,496466986526413618u},{-127,580726256763284622u},{-127,711659479565997331u},{-127,786830114908055929u},{-127,917763337710768638u},{-127,1012342020934231723u},{-127,1029288512632076860u},{-127,1048696560513481347u},{-127,1161452513526569244u},{-127,1292385736329281953u},{-127,1704593452618824567u},{-127,1835526675421537276u},{-127,2584771472658563906u},{-127,3127912411750819229u},{-127,3952327844329904457u},{-127,4626402006224872489u},{-127,5169542945317127812u},{-127,8709663073357489655u},{-127,9252804012449744978u},{-127,9795944951542000301u},
{-126,100305849254649u},{-126,102136803698878u},{-126,102467352993769u},{-126,131138896207224u},{-126,147261070265737u},{-126,163383244324250u},{-126,294522140531474u},{-126,365825897277777u},{-126,398070245394803u},{-126,485496176199619u},{-126,589044281062948u},{-126,692592385926277u},{-126,931932943769961u},{-126,970992352399238u},{-126,1424244180481831u},{-126,1631340390208489u},{-126,1941984704798476u},{-126,2602332742607727u},{-126,3262680780416978u},{-126,4130125027952887u},{-126,5204665485215454u},{-126,6525361560833956u},{-126,8014094437549839u},{-126,8260250055905774u},{-126,10409330970430908u},{-126,10655486588786843u},{-126,12804567503311977u},{-126,13050723121667912u},{-126,16274344493455613u},{-126,21064817559217751u},{-126,25855290624979889u},{-126,32794844605267161u},{-126,42129635118435502u},{-126,51464425631603843u},{-126,65589689210534322u},{-126,84259270236871004u},{-126,102190384408139881u},{-126,102436540026495816u},{-126,102682695644851751u},{-126,103175006881563621u},{-126,103421162499919556u},{-126,103667318118275491u},{-126,112263641776376027u},{-126,131179378421068644u},{-126,168518540473742008u},{-126,187434277118434625u},{-126,337037080947484016u},{-126,393291979644849997u},{-126,786583959289699994u},{-126,842838857987065975u},{-126,917517182092412703u},{-126,936925229973817190u},{-126,1142536776881876627u},{-126,1255046574276608589u},{-126,1685677715974131950u},{-126,1741932614671497931u},{-126,2285073553763753254u},{-126,3053234087645472501u},{-126,3483865229342995862u},{-126,5338307641409225755u},{-126,6424589519593736401u},{-126,6967730458685991724u},{-126,8822172870752221617u},
{-125,120534880417490u},{-125,125620737938445u},{-125,130706595459400u},{-125,202010352205703u},{-125,354789580740219u},{-125,709579161480438u},{-125,758810285151625u},{-125,37388393176344551u},{-125,37486855423686925u},{-125,56156436450023607u},{-125,74973710847373850u},{-125,92904825018642727u},{-125,93298674008012223u},{-125,93692522997381719u},{-125,94086371986751215u},{-125,112312872900047214u},{-125,130933222802712709u},{-125,149947421694747700u},{-125,168567771597413195u},{-125,187385045994763438u},{-125,206005395897428933u},{-125,318515193292160895u},{-125,337135543194826390u},{-125,393390441892192371u},{-125,412010791794857866u},{-125,655650736486987285u},{-125,674271086389652780u},{-125,786780883784384742u},{-125,824021583589715732u},{-125,1067661528281845151u},{-125,1311301472973974570u},{-125,1348542172779305560u},{-125,2135323056563690302u},{-125,3465244879440330367u},{-125,4270646113127380604u},{-125,5076047346814430841u},{-125,6125088525193610497u},{-125,6930489758880660734u},{-125,7735890992567710971u},
{-124,100496590350756u},{-124,104565276367520u},{-124,108633962384284u},{-124,112702648401048u},{-124,151762057030325u},{-124,200993180701512u},{-124,209130552735040u},{-124,250224304372699u},{-124,258361676406227u},{-124,303524114060650u},{-124,352755237731837u},{-124,557817104450113u},{-124,607048228121300u},{-124,1000897217490796u},{-124,1033446705624908u},{-124,1050128341161983u},{-124,1066403085229039u},{-124,7398908837395011u},{-124,7497371084737385u},{-124,7595833332079759u},{-124,11270672188941671u},{-124,14994742169474770u},{-124,18817274397350243u},{-124,22541344377883342u},{-124,26265414358416441u},{-124,33713554319482639u},{-124,41358618775233585u},{-124,45082688755766684u},{-124,48806758736299783u},{-124,67427108638965278u},{-124,78993167569934071u},{-124,82717237550467170u},{-124,86441307531000269u},{-124,108785727414198863u},{-124,112509797394731962u},{-124,116233867375265061u},{-124,134854217277930556u},{-124,239915874711596320u},{-124,247364014672662518u},{-124,254812154633728716u},{-124,269708434555861112u},{-124,280880644497460409u},{-124,509624309267457432u},{-124,524520589189589828u},{-124,539416869111722224u},{-124,561761288994920818u},{-124,790504953764917841u},{-124,820297513609182633u},{-124,1019248618534914864u},{-124,1049041178379179656u},{-124,1078833738223444448u},{-124,1352266242759838659u},{-124,1581009907529835682u},{-124,1869338691988362289u},{-124,2157667476446888896u},{-124,2933276150289674341u},{-124,3738677383976724578u},{-124,5637808635809351659u},{-124,5866552300579348682u},{-124,7477354767953449156u},{-124,9436071139474605821u},{-124,9893558469014599867u},
{-123,100333856631091u},{-123,103263292268487u},{-123,121409645624260u},{-123,167304442188032u},{-123,170640769295447u},{-123,242819291248520u},{-123,292050414919707u},{-123,436407458825853u},{-123,485638582497040u},{-123,872814917651706u},{-123,971277164994080u},{-123,1401011969605103u},{-123,1499474216947477u},{-123,1597936464289851u},{-123,2175364639914435u},{-123,2372289134599183u},{-123,2998948433894954u},{-123,5174313073809389u},{-123,5997896867789908u},{-123,8271723755046717u},{-123,9918891343007755u},{-123,10348626147618778u},{-123,11995793735579816u},{-123,16543447510093434u},{-123,20267517490626533u},{-123,23991587471159632u},{-123,33086895020186868u},{-123,40535034981253066u},{-123,47983174942319264u},{-123,59155384883918561u},{-123,74051664806050957u},{-123,95966349884638528u},{-123,102125285431871657u},{-123,102984755041093703u},{-123,103844224650315749u},{-123,104703694259537795u},{-123,118310769767837122u},{-123,140225454846424693u},{-123,170018014690689485u},{-123,191932699769277056u},{-123,258536224614261815u},{-123,340036029381378970u},{-123,361950714459966541u},{-123,495157764149936059u},{-123,517072449228523630u},{-123,701986743841345511u},{-123,893059974001400521u},{-123,902656787985521834u},{-123,946486158142696976u},{-123,990315528299872118u},{-123,1219059193069869141u},{-123,1403973487682691022u},{-123,2438118386139738282u},{-123,2623032680752560163u},{-123,5061151066892298445u},{-123,5246065361505120326u},{-123,8282756001640499393u},
{-122,143689778484663u},{-122,146358840170595u},{-122,194255432998816u},{-122,240817494984071u},{-122,339279742326445u},{-122,388510865997632u},{-122,435072927982887u},{-122,678559484652890u},{-122,777021731995264u},{-122,870145855965774u},{-122,1113632412635777u},{-122,1206756536606287u},{-122,1357118969305780u},{-122,1740291711931548u},{-122,1983778268601551u},{-122,3967556537203102u},{-122,4884264455154131u},{-122,6531432043115169u},{-122,10198263714919285u},{-122,10312740332377251u},{-122,10627998519530308u},{-122,10742475136988274u},{-122,34003602938137897u},{-122,36810965000719967u},{-122,51707244922852363u},{-122,68007205876275794u},{-122,84307166829699225u},{-122,92185041595376446u},{-122,92729253017445435u},{-122,103414489845704726u},{-122,136014411752551588u},{-122,206828979691409452u},{-122,272028823505103176u},{-122,326543430490537609u},{-122,359143352397384471u},{-122,413657959382818904u},{-122,598572253995640785u},{-122,653086860981075218u},{-122,718286704794768942u},{-122,827315918765637808u},{-122,1012230213378459689u},{-122,1197144507991281570u},{-122,1306173721962150436u},{-122,1730516918173228631u},{-122,2024460426756919378u},{-122,3754977344930148009u},{-122,4048920853513838756u},{-122,7509954689860296018u},{-122,8097841707027677512u},{-122,9719329411230037277u},
{-121,107774659739425u},{-121,117087072136476u},{-121,126399484533527u},{-121,215549319478850u},{-121,234174144272952u},{-121,252798969067054u},{-121,299361031052309u},{-121,336610680640513u},{-121,505597938134108u},{-121,542847587722312u},{-121,598722062104618u},{-121,804958969186417u},{-121,879458268362825u},{-121,1011195876268216u},{-121,1028456866715641u},{-121,1085695175444624u},{-121,1197444124209236u},{-121,1478180330467443u},{-121,1758916536725650u},{-121,4360041692225921u},{-121,9000819590710049u},{-121,9545031012779038u},{-121,13492598890841361u},{-121,14615543715874189u},{-121,15738488540907017u},{-121,18545850603489087u},{-121,20791740253554743u},{-121,31476977081814034u},{-121,33722866731879690u},{-121,37091701206978174u},{-121,47776938035237465u},{-121,52268717335368777u},{-121,67445733463759380u},{-121,74183402413956348u},{-121,80376859942084327u},{-121,89360418542346951u},{-121,95553876070474930u},{-121,104537434670737554u},{-121,119714450799128157u},{-121,134891466927518760u},{-121,209074869341475108u},{-121,224251885469865711u},{-121,239428901598256314u},{-121,254605917726646917u},{-121,448503770939731422u},{-121,463680787068122025u},{-121,478857803196512628u},{-121,494034819324903231u},{-121,603064033295772097u},{-121,633418065552553303u},{-121,927361574136244050u},{-121,957715606393025256u},{-121,1018423670906587668u},{-121,1048777703163368874u},{-121,1266836131105106606u},{-121,1530425607432016147u},{-121,1591133671945578559u},{-121,1854723148272488100u},{-121,2179020689112960053u},{-121,2533672262210213212u},{-121,2797261738537122753u},{-121,3445856820218066659u},{-121,4094451901899010565u},{-121,4358041378225920106u},{-121,5330934000747335965u},{-121,6891713640436133318u},{-121,8452493280124930671u},{-121,9121845580078534470u},{-121,9607510096187033766u},{-121,9871099572513943307u},
{-120,100028520149480u},{-120,172439455583080u},{-120,175891653672565u},{-120,348331109255645u},{-120,351783307345130u},{-120,700114416600775u},{-120,703566614690260u},{-120,1403681031291035u},{-120,1407133229380520u},{-120,2249341848155141u},{-120,2807362062582070u},{-120,3372286673187969u},{-120,4498683696310282u},{-120,5056703910737211u},{-120,6744573346375938u},{-120,8997367392620564u},{-120,9555387607047493u},{-120,10113407821474422u},{-120,12931126478324947u},{-120,13489146692751876u},{-120,19110775214094986u},{-120,19668795428521915u},{-120,26978293385503752u},{-120,38221550428189972u},{-120,38779570642616901u},{-120,53956586771007504u},{-120,54514606985434433u},{-120,77559141285233802u},{-120,92736157413624405u},{-120,106797133113161150u},{-120,107913173542015008u},{-120,109029213970868866u},{-120,138825226013223143u},{-120,185472314827248810u},{-120,293943508583690747u},{-120,370944629654497620u},{-120,664888138238188367u},{-120,741889259308995240u},{-120,818890380379802113u},{-120,912184558007853447u},{-120,956599565964171398u},{-120,1066186800149467193u},{-120,1483778518617990480u},{-120,1637780760759604226u},{-120,2132373600298934386u},{-120,2703967560909071419u},{-120,3275561521519208452u},{-120,3539150997846117993u},{-120,3693153239987731739u},{-120,4264747200597868772u},{-120,4836341161208005805u},{-120,7386306479975463478u},{-120,8529494401195737544u},{-120,9672682322416011610u},
{-119,137951564466464u},{-119,138642004084361u},{-119,139332443702258u},{-119,140713322938052u},{-119,141403762555949u},{-119,142094202173846u},{-119,278664887404516u},{-119,279355327022413u},{-119,280045766640310u},{-119,281426645876104u},{-119,282117085494001u},{-119,282807525111898u},{-119,560091533280620u},{-119,561472412516414u},{-119,562853291752208u},{-119,564234170988002u},{-119,1120183066561240u},{-119,1122944825032828u},{-119,1125706583504416u},{-119,1128468341976004u},{-119,1687869435638727u},{-119,2245889650065656u},{-119,3933759085704383u},{-119,5060846548444593u},{-119,7309497956981837u},{-119,7867518171408766u},{-119,8425538385835695u},{-119,10121693096889186u},{-119,10679713311316115u},{-119,15735036342817532u},{-119,18547231482724881u},{-119,21359426622632230u},{-119,34282267825542413u},{-119,37094462965449762u},{-119,39906658105357111u},{-119,46647088814025667u},{-119,52271479093840365u},{-119,74188925930899524u},{-119,93294177628051334u},{-119,93874291910250967u},{-119,126460405024739889u},{-119,148377851861799048u},{-119,170295298698858207u},{-119,274838256886538937u},{-119,296755703723598096u},{-119,318673150560657255u},{-119,373756824794404969u},{-119,417591718468523287u},{-119,593511407447196192u},{-119,747513649588809938u},{-119,835183436937046574u},{-119,879598444893364525u},{-119,967268232241601161u},{-119,1187022814894392384u},{-119,1319107610198946971u},{-119,1406777397547183607u},{-119,1934536464483202322u},{-119,2154291047135993545u},{-119,2945639590398921801u},{-119,3869072928966404644u},{-119,4308582094271987090u},{-119,5232015432839469933u},{-119,5671524598145052379u},{-119,5891279180797843602u},{-119,6814712519365326445u},{-119,7738145857932809288u},{-119,8617164188543974180u},
{-118,109256548184536u},{-118,110637427420330u},{-118,112018306656124u},{-118,113399185891918u},{-118,114780065127712u},{-118,116160944363506u},{-118,221274854840660u},{-118,224036613312248u},{-118,226798371783836u},{-118,335364480350475u},{-118,340887997293651u},{-118,448073226624496u},{-118,453596743567672u},{-118,563543731370105u},{-118,670728960700950u},{-118,788961223918147u},{-118,896146453248992u},{-118,1003331682579837u},{-118,1014378716466189u},{-118,1025425750352541u},{-118,1110516911910682u},{-118,1127087462740210u},{-118,1234272692071055u},{-118,1577922447836294u},{-118,1685107677167139u},{-118,2135942662263223u},{-118,2361360154811265u},{-118,3263030125003433u},{-118,3370215354334278u},{-118,4271885324526446u},{-118,4722720309622530u},{-118,5731575509145543u},{-118,6740430708668556u},{-118,7534915449529879u},{-118,8543770649052892u},{-118,9016699701921680u},{-118,9445440619245060u},{-118,9874181536568440u},{-118,10454295818768073u},{-118,11463151018291086u},{-118,16078686098582771u},{-118,17087541298105784u},{-118,20908591637536146u},{-118,27541837116873857u},{-118,29559547515919883u},{-118,34175082596211568u},{-118,41817183275072292u},{-118,50468139153456029u},{-118,55083674233747714u},{-118,63734630112131451u},{-118,74983410671760847u},{-118,83634366550144584u},{-118,92285322428528321u},{-118,118818304345879165u},{-118,127469260224262902u},{-118,175919688978672905u},{-118,184570644857056642u},{-118,246287564570142067u},{-118,254938520448525804u},{-118,290122458244260385u},{-118,351839377957345810u},{-118,430858209427198709u},{-118,509877040897051608u},{-118,580244916488520770u},{-118,782697587384544519u},{-118,861716418854397418u},{-118,940735250324250317u},{-118,1019754081794103216u},{-118,1064169089750421167u},{-118,1098772913263956115u},{-118,1362942503873065289u},{-118,1723432837708794836u},{-118,2083923171544524383u},{-118,2725885007746130578u},{-118,3446865675417589672u},{-118,4167846343089048766u},{-118,4370299013985072515u},{-118,5451770015492261156u},{-118,6893731350835179344u},{-118,7817164689402662187u},{-118,9170296008832944473u},{-118,9866484037433651622u},{-118,9980106692417039469u},
{-117,104423470859257u},{-117,109946987802433u},{-117,112708746274021u},{-117,134145792140190u},{-117,155582838006359u},{-117,177019883872528u},{-117,225417492548042u},{-117,246854538414211u},{-117,268291584280380u},{-117,289728630146549u},{-117,450834985096084u},{-117,472272030962253u},{-117,493709076828422u},{-117,515146122694591u},{-117,536583168560760u},{-117,901669970192168u},{-117,944544061924506u},{-117,987418153656844u},{-117,1889088123849012u},{-117,2812195139907349u},{-117,2897943323372025u},{-117,3778176247698024u},{-117,4701283263756361u},{-117,6718993662802387u},{-117,7556352495396048u},{-117,8479459511454385u},{-117,9402566527512722u},{-117,10325673543571059u},{-117,13437987325604774u},{-117,21917446837059159u},{-117,23763660869175833u},{-117,25609874901292507u},{-117,35183937795734581u},{-117,47527321738351666u},{-117,56178277616735403u},{-117,58024491648852077u},{-117,70367875591469162u},{-117,82711259534086247u},{-117,95054643476703332u},{-117,100013171290853721u},{-117,102439499605170028u},{-117,107398027419320417u},{-117,112356555233470806u},{-117,116048983297704154u},{-117,140735751182938324u},{-117,165422519068172494u},{-117,219754582652791223u},{-117,232097966595408308u},{-117,281471502365876648u},{-117,335803565950495377u},{-117,385177101720963717u},{-117,464195933190816616u},{-117,770354203441927434u},{-117,874059802797014503u},{-117,918474810753332454u},{-117,928391866381633232u},{-117,938308922009934010u},{-117,1644414006238941937u},{-117,1748119605594029006u},{-117,2365394673910401031u},{-117,2572805872620575169u},{-117,3496239211188058012u},{-117,4730789347820802062u},{-117,5861633885098459043u},{-117,8745556555784295419u},{-117,9461578695641604124u},
{-116,107316633712152u},{-116,128753679578321u},{-116,150190725444490u},{-116,214633267424304u},{-116,429266534848608u},{-116,579588664674405u},{-116,837358832593661u},{-116,858533069697216u},{-116,1008855199523013u},{-116,1159177329348810u},{-116,1309499459174607u},{-116,1695891902290877u},{-116,2318354658697620u},{-116,2618998918349214u},{-116,3391783804581754u},{-116,4014246560988497u},{-116,6783567609163508u},{-116,8028493121976994u},{-116,9252244397686925u},{-116,10475995673396856u},{-116,10497169910500411u},{-116,27155444673757587u},{-116,32092798250804421u},{-116,93746195252579181u},{-116,93830892200993401u},{-116,93915589149407621u},{-116,98704723066729570u},{-116,98789420015143790u},{-116,113580306509180737u},{-116,133329720817368073u},{-116,153079135125555409u},{-116,227160613018361474u},{-116,266659441634736146u},{-116,390114455298010551u},{-116,597525654008184689u},{-116,765438024101984155u},{-116,780228910596021102u},{-116,908642452073445896u},{-116,923433338567482843u},{-116,1051846880044907637u},{-116,1195051308016369378u},{-116,1338255735987831119u},{-116,2819715899947123979u},{-116,4093764865196242701u},{-116,6069045083808633181u},{-116,8187529730392485402u},{-116,9733196665090490659u},
{-115,107448038093459u},{-115,111682885514170u},{-115,115917732934881u},{-115,120152580355592u},{-115,124387427776303u},{-115,227600618449051u},{-115,231835465869762u},{-115,236070313290473u},{-115,459436084318813u},{-115,463670931739524u},{-115,918872168637626u},{-115,923107016058337u},{-115,927341863479048u},{-115,931576710899759u},{-115,1850448879537385u},{-115,1854683726958096u},{-115,3700897759074770u},{-115,3705132606495481u},{-115,7406030365570251u},{-115,7410265212990962u},{-115,9802714747941581u},{-115,9811184442783003u},{-115,9819654137624425u},{-115,9878942001514379u},{-115,9887411696355801u},{-115,9895881391197223u},{-115,14812060731140502u},{-115,14820530425981924u},{-115,34565709886748549u},{-115,69131419773497098u},{-115,74056068808281799u},{-115,83939245657216889u},{-115,93822422506151979u},{-115,103705599355087069u},{-115,138262839546994196u},{-115,153087604820396831u},{-115,241968438902081265u},{-115,340732449832700789u},{-115,449379637612255403u},{-115,646907659473494451u},{-115,681464899665401578u},{-115,898759275224510806u},{-115,933316515416417933u},{-115,1150610890975527161u},{-115,1328372559138896029u},{-115,1832075790640928739u},{-115,6859157171253589373u},{-115,9412230568955660050u},{-115,9688688490490917066u},{-115,9881376560265785633u},
{-114,102050850673469u},{-114,106285698094180u},{-114,110520545514891u},{-114,178692616822672u},{-114,182927464243383u},{-114,187162311664094u},{-114,191397159084805u},{-114,365854928486766u},{-114,370089775907477u},{-114,374324623328188u},{-114,735944704394243u},{-114,740179551814954u},{-114,744414399235665u},{-114,1476124256209197u},{-114,1480359103629908u},{-114,1484593951050619u},{-114,1488828798471330u},{-114,1972400522366307u},{-114,1980870217207729u},{-114,2960718207259816u},{-114,2969187902101238u},{-114,3944801044732614u},{-114,4933118729626123u},{-114,5921436414519632u},{-114,7889602089465228u},{-114,8877919774358737u},{-114,9866237459252246u},{-114,40487146301268181u},{-114,44440417040842217u},{-114,48393687780416253u},{-114,52346958519990289u},{-114,56300229259564325u},{-114,88880834081684434u},{-114,96787375560832506u},{-114,104693917039980578u},{-114,107624991315295417u},{-114,112600458519128650u},{-114,115531532794443489u},{-114,143204427971461741u},{-114,193574751121665012u},{-114,251851615751016355u},{-114,286408855942923482u},{-114,352592262051422897u},{-114,387149502243330024u},{-114,453332908351829439u},{-114,503703231502032710u},{-114,639001117994346379u},{-114,840482410595159463u},{-114,941223056895566005u},{-114,947085205446195683u},{-114,1278002235988692758u},{-114,1680964821190318926u},{-114,1882446113791132010u},{-114,2219225292884258763u},{-114,2556004471977385516u},{-114,3361929642380637852u},{-114,3698708821473764605u},{-114,4438450585768517526u},{-114,5581154935264896615u},{-114,6254713293451150121u},{-114,7397417642947529210u},{-114,8876901171537035052u},
{-113,144648032426422u},{-113,148882879847133u},{-113,153117727267844u},{-113,293530912273555u},{-113,297765759694266u},{-113,302000607114977u},{-113,392786165504977u},{-113,587061824547110u},{-113,595531519388532u},{-113,768632941327110u},{-113,785572331009954u},{-113,802511720692798u},{-113,979847990052087u},{-113,996787379734931u},{-113,1174123649094220u},{-113,1191063038777064u},{-113,1385338697819197u},{-113,1782359710744885u},{-113,2170911028829151u},{-113,2770677395638394u},{-113,2964953054680527u},{-113,4341822057658302u},{-113,4941588424467545u},{-113,5929906109361054u},{-113,7306775112338829u},{-113,8683644115316604u},{-113,9883176848935090u},{-113,10060513118294379u},{-113,11082709582553576u},{-113,11260045851912865u},{-113,11437382121272154u},{-113,14613550224677658u},{-113,17189951961273919u},{-113,22520091703825730u},{-113,31803502185951577u},{-113,42463781671055199u},{-113,45040183407651460u},{-113,50370323150203271u},{-113,63607004371903154u},{-113,76843685593603037u},{-113,94878497749776864u},{-113,97809572025091703u},{-113,100740646300406542u},{-113,113977327522106425u},{-113,188244611379113201u},{-113,201481292600813084u},{-113,214717973822512967u},{-113,376489222758226402u},{-113,402962585201626168u},{-113,713268401851353155u},{-113,739741764294752921u},{-113,752978445516452804u},{-113,805925170403252336u},{-113,858871895290051868u},{-113,1063284262166179791u},{-113,1116230987052979323u},{-113,1169177711939778855u},{-113,1426536803702706310u},{-113,1479483528589505842u},{-113,1505956891032905608u},{-113,1869209432569432127u},{-113,2232461974105958646u},{-113,2958967057179011684u},{-113,4101671406675390773u},{-113,4464923948211917292u},{-113,4828176489748443811u},{-113,5554681572821496849u},{-113,5917934114358023368u},{-113,7840090271814255027u},{-113,8203342813350781546u},{-113,8566595354887308065u},
{-112,117412364909422u},{-112,125882059750844u},{-112,153726588265422u},{-112,234824729818844u},{-112,356471942148977u},{-112,469649459637688u},{-112,663925118679821u},{-112,712943884297954u},{-112,939298919275376u},{-112,988317684893509u},{-112,1037336450511642u},{-112,1425887768595908u},{-112,1701261569191463u},{-112,1976635369787018u},{-112,3953270739574036u},{-112,4504018340765146u},{-112,5330139742551811u},{-112,9008036681530292u},{-112,9913456821439980u},{-112,9932195614553223u},{-112,9950934407666466u},{-112,10660279485103622u},{-112,12135186019317663u},{-112,14338176424082103u},{-112,18016073363060584u},{-112,22795465504421285u},{-112,28676352848164206u},{-112,36032146726121168u},{-112,45590931008842570u},{-112,58827612230542453u},{-112,89706955483471099u},{-112,91181862017685140u},{-112,92656768551899181u},{-112,116180317926870865u},{-112,117655224461084906u},{-112,142653680370270631u},{-112,233835542387955771u},{-112,285307360740541262u},{-112,467671084775911542u},{-112,519142903128497033u},{-112,570614721481082524u},{-112,675033264720467547u},{-112,777976901425638529u},{-112,935342169551823084u},{-112,1038285806256994066u},{-112,1141229442962165048u},{-112,1195651074383178621u},{-112,1350066529440935094u},{-112,1713319070977461613u},{-112,2076571612513988132u},{-112,3426638141954923226u},{-112,4153143225027976264u},{-112,8306286450055952528u},{-112,9601931348075874049u},{-112,9662252605633743786u},{-112,9722573863191613523u},
{-111,162196283106844u},{-111,168252277607822u},{-111,217271043225955u},{-111,223327037726933u},{-111,495672841071999u},{-111,605822361310221u},{-111,715971881548443u},{-111,942897726136174u},{-111,953868095917512u},{-111,972606889030755u},{-111,991345682143998u},{-111,1211644722620442u},{-111,1431943763096886u},{-111,1652242803573330u},{-111,3016999817549149u},{-111,3457597898502037u},{-111,4559093100884257u},{-111,5440289262790033u},{-111,6321485424695809u},{-111,7643279667554473u},{-111,9118186201768514u},{-111,10880578525580066u},{-111,12355485059794107u},{-111,14117877383605659u},{-111,18236372403537028u},{-111,23236063585374173u},{-111,28235754767211318u},{-111,36472744807074056u},{-111,46472127170748346u},{-111,56471509534422636u},{-111,57946416068636677u},{-111,61471200716259781u},{-111,72945489614148112u},{-111,92944254341496692u},{-111,104418543239385023u},{-111,112943019068845272u},{-111,115892832137273354u},{-111,145890979228296224u},{-111,217361562308230295u},{-111,260308904831355537u},{-111,975664662382344241u},{-111,978289512074948326u},{-111,980914361767552411u},{-111,983539211460156496u},{-111,1484483219771342987u},{-111,1547429327021816809u},{-111,2273934410094869847u},{-111,2968966439542685974u},{-111,3094858654043633618u},{-111,3789890683491449745u},{-111,4547868820189739694u},{-111,6758857123034135719u},{-111,7579781366982899490u},{-111,9095737640379479388u},{-111,9664877455326347871u},
{-110,156631726133902u},{-110,165224280357333u},{-110,173816834580764u},{-110,211706486253013u},{-110,228891594699875u},{-110,330448560714666u},{-110,457783189399750u},{-110,660897121429332u},{-110,796824304337847u},{-110,846825945012052u},{-110,915566378799500u},{-110,965568019473705u},{-110,1203052168397011u},{-110,1321794242858664u},{-110,1440536317320317u},{-110,1881134398273205u},{-110,2118618547196511u},{-110,2881072634640634u},{-110,3237298858025593u},{-110,4237237094393022u},{-110,5237175330760451u},{-110,6474597716051186u},{-110,6999567654572003u},{-110,8474474188786044u},{-110,8999444127306861u},{-110,10474350661520902u},{-110,10999320600041719u},{-110,11524290538562536u},{-110,11949257195734943u},{-110,13999135309144006u},{-110,27473300679767195u},{-110,35472806570706627u},{-110,43472312461646059u},{-110,55471571298055207u},{-110,70945613141413254u},{-110,86944624923292118u},{-110,110418172657589597u},{-110,173889249846584236u},{-110,284307422504173833u},{-110,347253529754647655u},{-110,505143767819353027u},{-110,568614845008347666u},{-110,757978136698289949u},{-110,821974183825805405u},{-110,946816458449711415u},{-110,1010287535638706054u},{-110,1073758612827700693u},{-110,1137229690016695332u},{-110,1452485196207585259u},{-110,1705319565086522181u},{-110,2147517225655401386u},{-110,2589714886224280591u},{-110,5179429772448561182u},{-110,5621627433017440387u},{-110,6063825093586319592u},{-110,9916661884328243159u},
{-109,101556966014791u},{-109,145927511043356u},{-109,183113275759900u},{-109,193113603894741u},{-109,366226551519800u},{-109,376226879654641u},{-109,732453103039600u},{-109,742453431174441u},{-109,752453759309282u},{-109,762454087444123u},{-109,1504907518618564u},{-109,1989876144600017u},{-109,3494783663218581u},{-109,4504722227720851u},{-109,5494660135953439u},{-109,6989567326437162u},{-109,9734420956659339u},{-109,9779375144707788u},{-109,9939380394865244u},{-109,10989320271906878u},{-109,17493918972362587u},{-109,21978640543813756u},{-109,28483239244269465u},{-109,56966478488538930u},{-109,69450705950929531u},{-109,87914562175255024u},{-109,88964502052296658u},{-109,113932956977077860u},{-109,126417184439468461u},{-109,138901411901859062u},{-109,151385639364249663u},{-109,164394836765161081u},{-109,189363291689942283u},{-109,252834368878936922u},{-109,277802823803718124u},{-109,1011337475515747688u},{-109,1022771763101096655u},{-109,1099777007629523529u},{-109,1111211295214872496u},{-109,1188216539743299370u},{-109,1199650827328648337u},{-109,9885393790141212153u},{-109,9925061403344576231u},{-109,9996701897425685928u},
{-108,103246294708483u},{-108,108741746326812u},{-108,118742074461653u},{-108,136490292473079u},{-108,146490620607920u},{-108,156490948742761u},{-108,237484148923306u},{-108,292981241215840u},{-108,312981897485522u},{-108,393975097666067u},{-108,504969282251135u},{-108,585962482431680u},{-108,706956995151589u},{-108,787950195332134u},{-108,908944708052043u},{-108,968946676861089u},{-108,970927827064723u},{-108,1009938564502270u},{-108,1292919477583269u},{-108,1696894903384177u},{-108,2302858042085539u},{-108,2585838955166538u},{-108,3110808893687355u},{-108,3393789806768354u},{-108,4605716084171078u},{-108,5696647848853893u},{-108,6787579613536708u},{-108,8686462229821339u},{-108,9211432168342156u},{-108,11393295697707786u},{-108,14100129165594233u},{-108,20079757927529125u},{-108,22786591395415572u},{-108,25493424863302019u},{-108,40159515855058250u},{-108,42866349322944697u},{-108,45573182790831144u},{-108,48280016258717591u},{-108,85732698645889394u},{-108,91146365581662288u},{-108,113407987038557043u},{-108,118821653974329937u},{-108,149203775834884033u},{-108,204554352620219331u},{-108,237643307948659874u},{-108,298407551669768066u},{-108,320669173126662821u},{-108,386847083783543907u},{-108,409108705240438662u},{-108,475286615897319748u},{-108,619076724796430887u},{-108,795955789023982569u},{-108,972834853251534251u},{-108,993275613567019469u},{-108,995703428422232185u},{-108,1238153449592861774u},{-108,1591911578047965138u},{-108,1945669706503068502u},{-108,2476306899185723548u},{-108,2498568520642618303u},{-108,3183823156095930276u},{-108,3206084777552825031u},{-108,3913601034463031759u},{-108,4267359162918135123u},{-108,5682391676738548579u},{-108,7097424190558962035u},{-108,8534718325836270246u},{-108,9219972961289582219u},{-108,9905227596742894192u},{-108,9994274082570473212u},
{-107,100993856450227u},{-107,117192496486336u},{-107,133391136522445u},{-107,149589776558554u},{-107,201987712900454u},{-107,234384992972672u},{-107,403975425800908u},{-107,468769985945344u},{-107,622161778737471u},{-107,807950851601816u},{-107,896548084249507u},{-107,937539971890688u},{-107,1026137204538379u},{-107,1244323557474942u},{-107,1462509910411505u},{-107,2488647114949884u},{-107,2925019820823010u},{-107,3143206173759573u},{-107,4015951585505825u},{-107,4888696997252077u},{-107,6286412347519146u},{-107,8031903171011650u},{-107,8993245815405593u},{-107,9777393994504154u},{-107,10738736638898097u},{-107,16063806342023300u},{-107,20516130633402251u},{-107,27675288392667649u},{-107,32127612684046600u},{-107,50898252493956347u},{-107,98558088124140101u},{-107,99368690132699978u},{-107,99771995551746459u},{-107,1401675540946276603u},{-107,1410580189529034505u},{-107,1419484838111792407u},{-107,1428389486694550309u},{-107,1437294135277308211u},{-107,2135905743604757037u},{-107,2838969676223584814u},{-107,3550938257425170493u},{-107,5677939352447169628u},{-107,6381003285065997405u},{-107,7101876514850340986u},{-107,7822749744634684567u},
{-106,101952374717305u},{-106,106712909217956u},{-106,111473443718607u},{-106,116233978219258u},{-106,222946887437214u},{-106,292501982082301u},{-106,515448869519515u},{-106,585003964164602u},{-106,664080127810991u},{-106,803190317101165u},{-106,942300506391339u},{-106,1030897739039030u},{-106,1081410695681513u},{-106,1170007928329204u},{-106,1606380634202330u},{-106,2340015856658408u},{-106,2706833467886447u},{-106,3212761268404660u},{-106,5919594736291107u},{-106,6425522536809320u},{-106,12851045073618640u},{-106,17303369364997591u},{-106,21249765855858329u},{-106,25702090147237280u},{-106,42499531711716658u},{-106,80546739132054365u},{-106,84999063423433316u},{-106,89451387714812267u},{-106,282116037905806901u},{-106,291020686488564803u},{-106,434304867587157729u},{-106,564232075811613802u},{-106,703063932618827777u},{-106,868609735174315458u},{-106,998536943398771531u},{-106,1128464151623227604u},{-106,1164082745954259212u},{-106,1276200657013199481u},{-106,2127001095021999135u},{-106,2552401314026398962u},{-106,4124074981819542197u},{-106,4254002190043998270u},{-106,5104802628052797924u},{-106,6676476295845941159u},
{-105,100604037776448u},{-105,103089773903903u},{-105,105575510031358u},{-105,160638063420233u},{-105,206179547807806u},{-105,275734642452893u},{-105,321276126840466u},{-105,366817611228039u},{-105,412359095615612u},{-105,457900580003185u},{-105,551469284905786u},{-105,642552253680932u},{-105,733635222456078u},{-105,824718191231224u},{-105,982026767506966u},{-105,1102938569811572u},{-105,1285104507361864u},{-105,1467270444912156u},{-105,1791032307880077u},{-105,2570209014723728u},{-105,3258302752792233u},{-105,5140418029447456u},{-105,6516605505584466u},{-105,7933362993854139u},{-105,8580886719789981u},{-105,9228410445725823u},{-105,9633312332959070u},{-105,10280836058894912u},{-105,13033211011168932u},{-105,14733160350273863u},{-105,16109347826410873u},{-105,20561672117789824u},{-105,25013996409168775u},{-105,30518746313716815u},{-105,32218695652821746u},{-105,41123344235579648u},{-105,51080418431506639u},{-105,59985067014264541u},{-105,64437391305643492u},{-105,83299114084328385u},{-105,101108411249844189u},{-105,102160836863013278u},{-105,119970134028529082u},{-105,121022559641698171u},{-105,147736505389971877u},{-105,166598228168656770u},{-105,185459950947341663u},{-105,239940268057058164u},{-105,295473010779943754u},{-105,333196456337313540u},{-105,425400219004399827u},{-105,536465704450171007u},{-105,720873229784343581u},{-105,850800438008799654u},{-105,980727646233255727u},{-105,1001530343721561380u},{-105,1001694220238278798u},{-105,1072931408900342014u},{-105,1387266142458970661u},{-105,1701600876017599308u},{-105,2145862817800684028u},{-105,2200343134910400529u},{-105,2774532284917941322u},{-105,3403201752035198616u},{-105,4974875419828341851u},{-105,6232214354062856439u},{-105,6806403504070397232u},{-105,8583451271202736112u},{-105,8801372539641602116u},{-105,9375561689649142909u},{-105,9949750839656683702u},
{-104,136624453162719u},{-104,138613042064683u},{-104,183160232001274u},{-104,228701716388847u},{-104,321773274065957u},{-104,366320464002548u},{-104,505927800518213u},{-104,643546548131914u},{-104,781165295745615u},{-104,914806865555388u},{-104,963331233295907u},{-104,1238568728523309u},{-104,1513806223750711u},{-104,1926662466591814u},{-104,2477137457046618u},{-104,3076136815241941u},{-104,3901849300924147u},{-104,5002799281833755u},{-104,6103749262743363u},{-104,6654224253198167u},{-104,7803698601848294u},{-104,8856124215017383u},{-104,10005598563667510u},{-104,12207498525486726u},{-104,13308448506396334u},{-104,16659822816865677u},{-104,20011197127335020u},{-104,24414997050973452u},{-104,29968271323262011u},{-104,33319645633731354u},{-104,36671019944200697u},{-104,63287916956993365u},{-104,66639291267462708u},{-104,69990665577932051u},{-104,100071096113797429u},{-104,100153034372156138u},{-104,100234972630514847u},{-104,100316910888873556u},{-104,100398849147232265u},{-104,133278582534925416u},{-104,181056151023703231u},{-104,225482345202011703u},{-104,266557165069850832u},{-104,362112302047406462u},{-104,450964690404023406u},{-104,669744286985096423u},{-104,901929380808046812u},{-104,929598703434008569u},{-104,1476118530815587605u},{-104,2104787997932844899u},{-104,2378047911623634417u},{-104,3362126932167359487u},{-104,4209575995865689798u},{-104,5603544886945599145u},{-104,6724253864334718974u},{-104,8419151991731379596u},{-104,9813120882811288943u},
{-103,119004436078279u},{-103,130300180747954u},{-103,144937314479448u},{-103,156233059149123u},{-103,212075993755389u},{-103,238008872156558u},{-103,312466118298246u},{-103,375627619770259u},{-103,624932236596492u},{-103,751255239540518u},{-103,799779607281037u},{-103,1000559856366751u},{-103,1049084224107270u},{-103,1152815737711946u},{-103,1201340105452465u},{-103,1249864473192984u},{-103,1350254597735841u},{-103,2001119712733502u},{-103,4002239425467004u},{-103,8004478850934008u},{-103,10023901977163371u},{-103,10027391818913477u},{-103,10052378010532976u},{-103,12657583391398673u},{-103,16008957701868016u},{-103,25315166782797346u},{-103,34870680480552909u},{-103,47777568488777815u},{-103,50630333565594692u},{-103,69741360961105818u},{-103,95555136977555630u},{-103,101260667131189384u},{-103,117518929449883633u},{-103,139482721922211636u},{-103,155740984240905885u},{-103,235037858899767266u},{-103,295223706163117521u},{-103,530261565062884787u},{-103,590447412326235042u},{-103,1000337282862419319u},{-103,1060523130125769574u},{-103,1120708977389119829u},{-103,1180894824652470084u},{-103,1241080671915820339u},{-103,2241417954778239658u},{-103,2301603802041589913u},{-103,4482835909556479316u},{-103,4543021756819829571u},{-103,4603207604083179826u},{-103,9025857666376308887u},{-103,9086043513639659142u},{-103,9146229360903009397u},
{-102,104908422410727u},{-102,113945018146467u},{-102,130841300811896u},{-102,179365668552415u},{-102,209816844821454u},{-102,240268021090493u},{-102,419633689642908u},{-102,450084865911947u},{-102,480536042180986u},{-102,589962762459583u},{-102,650865114997661u},{-102,900169731823894u},{-102,961072084361972u},{-102,1000938531079419u},{-102,1004888816878287u},{-102,1179925524919166u},{-102,1551034846821555u},{-102,1800339463647788u},{-102,2730960371740721u},{-102,3102069693643110u},{-102,3971788249197965u},{-102,5833030065383831u},{-102,6204139387286220u},{-102,8071076410146007u},{-102,8187185908548242u},{-102,8813295053950785u},{-102,9555513697755563u},{-102,11666060130767662u},{-102,14518825207584539u},{-102,17000480962499027u},{-102,19111027395511126u},{-102,21221573828523225u},{-102,29037650415169078u},{-102,31148196848181177u},{-102,38222054791022252u},{-102,50259224243692303u},{-102,62296393696362354u},{-102,64406940129374453u},{-102,76444109582044504u},{-102,88481279034714555u},{-102,100518448487384606u},{-102,112555617940054657u},{-102,124592787392724708u},{-102,1008779468594467715u},{-102,1020816638047137766u},{-102,5973102156257749071u},{-102,6021250834068429275u},{-102,6069399511879109479u},{-102,6117548189689789683u},{-102,6165696867500469887u},
{-101,100011449830189u},{-101,100222300790571u},{-101,100433151750953u},{-101,100452522814952u},{-101,105812081984301u},{-101,143492534841932u},{-101,166714434522379u},{-101,211624163968602u},{-101,234846063649049u},{-101,310206969364311u},{-101,385567875079573u},{-101,446470227617651u},{-101,620413938728622u},{-101,794357649839593u},{-101,846496655874408u},{-101,869718555554855u},{-101,892940455235302u},{-101,916162354915749u},{-101,939384254596196u},{-101,1240827877457244u},{-101,1588715299679186u},{-101,1762659010790157u},{-101,2481655754914488u},{-101,3177430599358372u},{-101,3525318021580314u},{-101,4244314765704645u},{-101,4963311509828976u},{-101,7050636043160628u},{-101,7769632787284959u},{-101,8488629531409290u},{-101,9207626275533621u},{-101,9926623019657952u},{-101,10645619763782283u},{-101,16977259062818580u},{-101,17696255806942911u},{-101,18415252551067242u},{-101,35392511613885822u},{-101,47429681066555873u},{-101,58747853775101593u},{-101,70785023227771644u},{-101,82822192680441695u},{-101,100611336086106394u},{-101,101144557632787149u},{-101,201755893718893543u},{-101,867209422138924427u},{-101,915358099949604631u},{-101,963506777760284835u},{-101,1156101489003005651u},{-101,1204250166813685855u},{-101,1252398844624366059u},{-101,1300547522435046263u},{-101,2408500333627371710u},{-101,2504797689248732118u},{-101,3684973517157077871u},{-101,4817000667254743420u},{-101,6141622528595129785u},{-101,7369947034314155742u},{-101,8309379473169100475u},{-101,9634001334509486840u},
{-100,119438407809635u},{-100,140294010223561u},{-100,142660307490082u},{-100,173943711110971u},{-100,238876815619270u},{-100,347887422221942u},{-100,500975530918987u},{-100,630841739935585u},{-100,695774844443884u},{-100,848862953140929u},{-100,1001951061837974u},{-100,1155039170535019u},{-100,1261683479871170u},{-100,1697725906281858u},{-100,2416722650406189u},{-100,3395451812563716u},{-100,4114448556688047u},{-100,5246265827542619u},{-100,6790903625127432u},{-100,9773534910960907u},{-100,10093467838969360u},{-100,10200112148305511u},{-100,13581807250254864u},{-100,16564438536088339u},{-100,19547069821921814u},{-100,21091707619506627u},{-100,33128877072176678u},{-100,42183415239013254u},{-100,54220584691683305u},{-100,66257754144353356u},{-100,84046897550018055u},{-100,84153541859354206u},{-100,84260186168690357u},{-100,84366830478026508u},{-100,84473474787362659u},{-100,84580119096698810u},{-100,108334525074030459u},{-100,108441169383366610u},{-100,132408863979370561u},{-100,132515508288706712u},{-100,156483202884710663u},{-100,156589847194046814u},{-100,192701355552056967u},{-100,240850033362737171u},{-100,288998711173417375u},{-100,481700066725474342u},{-100,650327083372191207u},{-100,698475761182871411u},{-100,963400133450948684u},{-100,1228324505719025957u},{-100,1300654166744382414u},{-100,1396951522365742822u},{-100,1661875894633820095u},{-100,1926800266901897368u},{-100,2191724639169974641u},{-100,2456649011438051914u},{-100,3323751789267640190u},{-100,3853600533803794736u},{-100,4383449278339949282u},{-100,4913298022876103828u},{-100,7707201067607589472u},{-100,8766898556679898564u},
{-99,102946448306670u},{-99,118772625928155u},{-99,126168347987117u},{-99,129866209016598u},{-99,160483830756007u},{-99,191101452495416u},{-99,382202904990832u},{-99,443438148469650u},{-99,504673391948468u},{-99,535291013687877u},{-99,657761500645513u},{-99,780231987603149u},{-99,1009346783896936u},{-99,1025172961518421u},{-99,1070582027375754u},{-99,1315523001291026u},{-99,1667108284542449u},{-99,1912049258457721u},{-99,2141164054751508u},{-99,2737690311918203u},{-99,3334216569084898u},{-99,4175683800166865u},{-99,5368736314500255u},{-99,5475380623836406u},{-99,6668433138169796u},{-99,7861485652503186u},{-99,8244723290997579u},{-99,8351367600333730u},{-99,8458011909669881u},{-99,8564656219006032u},{-99,10844116938336661u},{-99,13230221967003441u},{-99,15616326995670221u},{-99,16809379510003611u},{-99,16916023819339762u},{-99,21688233876673322u},{-99,26460443934006882u},{-99,31339298300676593u},{-99,38497613386676933u},{-99,43376467753346644u},{-99,57799742234683475u},{-99,76995226773353866u},{-99,81874081140023577u},{-99,86752935506693288u},{-99,91631789873362999u},{-99,110720630102697239u},{-99,115599484469366950u},{-99,120478338836036661u},{-99,163748162280047154u},{-99,168627016646716865u},{-99,231198968938733900u},{-99,236077823305403611u},{-99,332375178926764019u},{-99,462397937877467800u},{-99,467276792244137511u},{-99,534727598902824257u},{-99,664750357853528038u},{-99,794773116804231819u},{-99,1035303217238960537u},{-99,1045060925972299959u},{-99,1329500715707056076u},{-99,1729326701292506841u},{-99,1989372219193914403u},{-99,2659001431414112152u},{-99,3318872934900970479u},{-99,3458653402585013682u},{-99,4118524906071872009u},{-99,5178222395144181101u},{-99,5318002862828224304u},{-99,6777526337485984161u},{-99,8237049812143744018u},{-99,8896921315630602345u},{-99,9176482250998688751u},
{-98,100252803273943u},{-98,101348571791118u},{-98,102444340308293u},{-98,174210023863563u},{-98,177375259387860u},{-98,180540494912157u},{-98,183705730436454u},{-98,235445267342381u},{-98,241775738390975u},{-98,354750518775720u},{-98,361080989824314u},{-98,835136760033373u},{-98,941781069369524u},{-98,967102953563900u},{-98,1073747262900051u},{-98,1312357765766729u},{-98,1550968268633407u},{-98,1670273520066746u},{-98,2147494525800102u},{-98,2624715531533458u},{-98,3340547040133492u},{-98,4294989051600204u},{-98,6681094080266984u},{-98,7742180401069847u},{-98,8589978103200408u},{-98,9651064424003271u},{-98,11559948446936695u},{-98,14423274481336831u},{-98,19302128848006542u},{-98,23119896893873390u},{-98,33725403329343373u},{-98,46239793787746780u},{-98,67450806658686746u},{-98,92479587575493560u},{-98,102237296308832982u},{-98,102871805392291241u},{-98,134901613317373492u},{-98,184959175150987120u},{-98,289953153184884087u},{-98,369918350301974240u},{-98,559756379819631071u},{-98,719686774053811377u},{-98,939432438854944733u},{-98,979732291955218939u},{-98,1119512759639262142u},{-98,1299593080423579551u},{-98,1619453868891940163u},{-98,1779384263126120469u},{-98,2419105840062841693u},{-98,3058827416999562917u},{-98,3238907737783880326u},{-98,3558768526252240938u},{-98,4838211680125683386u},{-98,6297735154783443243u},{-98,7117537052504481876u},{-98,8216899885593606915u},{-98,8577060527162241733u},{-98,9676423360251366772u},
{-97,112974780384745u},{-97,125635722481933u},{-97,141900207510288u},{-97,193420590712780u},{-97,283800415020576u},{-97,641716169320593u},{-97,732095993628389u},{-97,880326672187271u},{-97,1028557350746153u},{-97,1283432338641186u},{-97,1505778356479509u},{-97,1760653344374542u},{-97,2311989689387339u},{-97,4072643033761881u},{-97,4623979378774678u},{-97,5175315723787475u},{-97,8696622412536559u},{-97,9247958757549356u},{-97,9799295102562153u},{-97,10184285970684026u},{-97,10267458709129488u},{-97,10350631447574950u},{-97,10433804186020412u},{-97,12514390458403407u},{-97,18495917515098712u},{-97,25028780916806814u},{-97,31010307973502119u},{-97,36991835030197424u},{-97,62020615947004238u},{-97,73983670060394848u},{-97,87517560470378387u},{-97,96338941990583139u},{-97,103891305343871373u},{-97,124041231894008476u},{-97,127817413570652593u},{-97,147967340120789696u},{-97,251858645464661069u},{-97,295934680241579392u},{-97,411789039698841375u},{-97,819801897721038633u},{-97,823578079397682750u},{-97,1003658400182000159u},{-97,1187514902642961685u},{-97,1643379977118721383u},{-97,2007316800364000318u},{-97,3286759954237442766u},{-97,3650696777482721701u},{-97,6573519908474885532u},{-97,6937456731720164467u},{-97,7301393554965443402u},{-97,7665330378210722337u},
{-96,103391412330480u},{-96,154736472570224u},{-96,167748060592908u},{-96,235357605861007u},{-96,248369193883691u},{-96,309472945140448u},{-96,403105666453915u},{-96,470715211722014u},{-96,712578611594363u},{-96,806211332907830u},{-96,1024603161889490u},{-96,1035063144757495u},{-96,1045523127625500u},{-96,1425157223188726u},{-96,1518789944502193u},{-96,2070126289514990u},{-96,2943947167690919u},{-96,3037579889004386u},{-96,4140252579029980u},{-96,4691588924042777u},{-96,5887894335381838u},{-96,7084199746720899u},{-96,8748668764627295u},{-96,9383177848085554u},{-96,9757708733339422u},{-96,10766748702051549u},{-96,13159359524729671u},{-96,15551970347407793u},{-96,21533497404103098u},{-96,26318719049459342u},{-96,31103940694815586u},{-96,39290813131562079u},{-96,48861256422274567u},{-96,58431699712987055u},{-96,78581626263124158u},{-96,82357807939768275u},{-96,97722512844549134u},{-96,101498694521193251u},{-96,116863399425974110u},{-96,120639581102618227u},{-96,164715615879536550u},{-96,199221207365742385u},{-96,237502980528592337u},{-96,329431231759073100u},{-96,402218596408128887u},{-96,475005961057184674u},{-96,658862463518146200u},{-96,731649828167201987u},{-96,804437192816257774u},{-96,1015246923410136901u},{-96,1022799286763425135u},{-96,1827236479579682909u},{-96,1900023844228738696u},{-96,1972811208877794483u},{-96,4236771876351812114u},{-96,4455133970298979475u},{-96,4746283428895202623u},{-96,5037432887491425771u},{-96,5328582346087648919u},{-96,8910267940597958950u},{-96,9492566857790405246u},
{-95,100368319615348u},{-95,102460316188949u},{-95,104552312762550u},{-95,115471904211633u},{-95,161242266581566u},{-95,207012628951499u},{-95,228851811849665u},{-95,230943808423266u},{-95,322484533163132u},{-95,414025257902998u},{-95,551336345012797u},{-95,644969066326264u},{-95,828050515805996u},{-95,915407247398660u},{-95,923775233693064u},{-95,1013223961859329u},{-95,1379386860818793u},{-95,1656101031611992u},{-95,1749733752925459u},{-95,3035487892430785u},{-95,3312202063223984u},{-95,4508507474563045u},{-95,5061935816149443u},{-95,6624404126447968u},{-95,7454546638827565u},{-95,9017014949126090u},{-95,10123871632298886u},{-95,11686339942597411u},{-95,12793196625770207u},{-95,13248808252895936u},{-95,16471561587953655u},{-95,23372679885194822u},{-95,32943123175907310u},{-95,39844241473148477u},{-95,46745359770389644u},{-95,53646478067630811u},{-95,65886246351814620u},{-95,79688482946296954u},{-95,93490719540779288u},{-95,101043082894067522u},{-95,103516774458617505u},{-95,104819264570711639u},{-95,107292956135261622u},{-95,131772492703629240u},{-95,159376965892593908u},{-95,204559857352685027u},{-95,263544985407258480u},{-95,336332350056314267u},{-95,409119714705370054u},{-95,527089970814516960u},{-95,672664700112628534u},{-95,818239429410740108u},{-95,891026794059795895u},{-95,926183630602048797u},{-95,961340467144301699u},{-95,983866268544528116u},{-95,1182176252656019043u},{-95,1636478858821480216u},{-95,1782053588119591790u},{-95,2364352505312038086u},{-95,2818655111477499259u},{-95,3564107176239183580u},{-95,4600708699597091049u},{-95,5637310222954998518u},{-95,7128214352478367160u},{-95,8164815875836274629u},{-95,9201417399194182098u},
{-94,109430470373119u},{-94,127320216006372u},{-94,145209961639625u},{-94,149393954786827u},{-94,167283700420080u},{-94,183081449479732u},{-94,571318087219651u},{-94,607097578486157u},{-94,830142512379597u},{-94,901701494912609u},{-94,973260477445621u},{-94,1142636174439302u},{-94,1214195156972314u},{-94,1490909327765513u},{-94,1803402989825218u},{-94,2115896651884923u},{-94,2428390313944628u},{-94,2981818655531026u},{-94,3294312317590731u},{-94,3606805979650436u},{-94,3919299641710141u},{-94,5963637311062052u},{-94,6588624635181462u},{-94,7213611959300872u},{-94,10338548579897922u},{-94,10364806311825579u},{-94,13177249270362924u},{-94,19453380243484681u},{-94,20703354891723501u},{-94,26354498540725848u},{-94,33880604162086425u},{-94,38906760486969362u},{-94,52708997081451696u},{-94,60235102702812273u},{-94,85339626595299301u},{-94,87839575891776941u},{-94,90365782920182238u},{-94,92891989948587535u},{-94,105417994162903392u},{-94,138048623676750997u},{-94,178205358811959179u},{-94,210835988325806784u},{-94,243466617839654389u},{-94,356410717623918358u},{-94,421671976651613568u},{-94,680190805733989111u},{-94,712821435247836716u},{-94,843343953303227136u},{-94,971340264330212259u},{-94,1101862782385602679u},{-94,1360381611467978222u},{-94,1425642870495673432u},{-94,1684161699578048975u},{-94,2462244393853580901u},{-94,2851285740991346864u},{-94,3109804570073722407u},{-94,4924488787707161802u},{-94,5183007616789537345u},{-94,5702571481982693728u},{-94,5961090311065069271u},{-94,6219609140147444814u},{-94,9590458746331948061u},
{-93,107107719190629u},{-93,116167969311700u},{-93,124766710214993u},{-93,133826960336064u},{-93,151716705969317u},{-93,160776956090388u},{-93,214215438381258u},{-93,223275688502329u},{-93,303433411938634u},{-93,365932144350575u},{-93,428430876762516u},{-93,1018100218833198u},{-93,1044357950760855u},{-93,1187475915826879u},{-93,1312473380650761u},{-93,1437470845474643u},{-93,5276151254530701u},{-93,5776141113826229u},{-93,6276130973121757u},{-93,6776120832417285u},{-93,7276110691712813u},{-93,7776100551008341u},{-93,9026075199247161u},{-93,9552322790470346u},{-93,12552261946243514u},{-93,13552241664834570u},{-93,14552221383425626u},{-93,18578397989717507u},{-93,20578357426899619u},{-93,25104523892487028u},{-93,27104483329669140u},{-93,31630649795256549u},{-93,33630609232438661u},{-93,54208966659338280u},{-93,60735092562107801u},{-93,67261218464877322u},{-93,71787384930464731u},{-93,84839636736003773u},{-93,97891888541542815u},{-93,110944140347081857u},{-93,123996392152620899u},{-93,245466577276836501u},{-93,271571080887914585u},{-93,284623332693453627u},{-93,336832339915609795u},{-93,389041347137765963u},{-93,441250354359922131u},{-93,673664679831219590u},{-93,778082694275531926u},{-93,932183508913595133u},{-93,1036601523357907469u},{-93,1086284323551658340u},{-93,1091336737608468934u},{-93,1347329359662439180u},{-93,1814684217633439395u},{-93,2073203046715814938u},{-93,2436139890242502817u},{-93,2694658719324878360u},{-93,3629368435266878790u},{-93,3887887264349254333u},{-93,4146406093431629876u},{-93,4872279780485005634u},{-93,6065508325509381607u},{-93,6582545983674132693u},{-93,7775774528698508666u},{-93,8292812186863259752u},{-93,9744559560970011268u},{-93,9903712789664885069u},
{-92,101071607134875u},{-92,107799983017296u},{-92,146372857740230u},{-92,166120804319475u},{-92,208871590152171u},{-92,292745715480460u},{-92,312493662059705u},{-92,417743180304342u},{-92,480241912716283u},{-92,624987324119410u},{-92,730236842364047u},{-92,881492039115586u},{-92,934226093504909u},{-92,960483825432566u},{-92,986741557360223u},{-92,1355224166483457u},{-92,2710448332966914u},{-92,2815697851211551u},{-92,5420896665933828u},{-92,5526146184178465u},{-92,8526085339951633u},{-92,8736584376440907u},{-92,10841793331867656u},{-92,11052292368356930u},{-92,12947002287294405u},{-92,13157501323783679u},{-92,17473168752881814u},{-92,19578377708308563u},{-92,21683586663735312u},{-92,28209712566504833u},{-92,39156755416617126u},{-92,43367173327470624u},{-92,54314216177582917u},{-92,56419425133009666u},{-92,67366467983121959u},{-92,78313510833234252u},{-92,100207596533458838u},{-92,106102225326760537u},{-92,108628432355165834u},{-92,123785893116131625u},{-92,134732935966243918u},{-92,145679978816356211u},{-92,217256864710331668u},{-92,269465871932487836u},{-92,362936843526687879u},{-92,538931743864975672u},{-92,725873687053375758u},{-92,918710259035077543u},{-92,934709715942000430u},{-92,990287144929053000u},{-92,1006286601835975887u},{-92,1077863487729951344u},{-92,1451747374106751516u},{-92,1523324260000726973u},{-92,2155726975459902688u},{-92,2903494748213503032u},{-92,3348955520484278661u},{-92,8782061130534484553u},{-92,9672982675076035811u},
{-91,117098286192184u},{-91,124997464823882u},{-91,132896643455580u},{-91,234196572384368u},{-91,249994929647764u},{-91,363143626524099u},{-91,499989859295528u},{-91,605239377540165u},{-91,726287253048198u},{-91,999979718591056u},{-91,1105229236835693u},{-91,1210478755080330u},{-91,1378921702378551u},{-91,2210458473671386u},{-91,2589400457458881u},{-91,3073591959491013u},{-91,3831475927066003u},{-91,4420916947342772u},{-91,5178800914917762u},{-91,6147183918982026u},{-91,7494508906833785u},{-91,7662951854132006u},{-91,8841833894685544u},{-91,9010276841983765u},{-91,10020715935239082u},{-91,10189158882537303u},{-91,10357601829835524u},{-91,10526044777133745u},{-91,10694487724431966u},{-91,15157460760965791u},{-91,17852110736669309u},{-91,24757178623226325u},{-91,35704221473338618u},{-91,41261964372043875u},{-91,49514357246452650u},{-91,76966185845382493u},{-91,82523928744087750u},{-91,93470971594200043u},{-91,99028714492905300u},{-91,153932371690764986u},{-91,159490114589470243u},{-91,186941943188400086u},{-91,318980229178940486u},{-91,698421858454445915u},{-91,830460144444986315u},{-91,951382944638116201u},{-91,1072305744831246087u},{-91,1193228545024375973u},{-91,1396843716908891830u},{-91,1578227917198586659u},{-91,2469149461740137917u},{-91,3480993806474819061u},{-91,4613760951402630091u},{-91,4938298923480275834u},{-91,6637449640871992379u},{-91,6961987612949638122u},{-91,9227521902805260182u},{-91,9552059874882905925u},{-91,9876597846960551668u},
{-90,106317314764464u},{-90,121047875508033u},{-90,135778436251602u},{-90,166307354258567u},{-90,212634629528928u},{-90,242095751016066u},{-90,332614708517134u},{-90,408403105274633u},{-90,484191502032132u},{-90,682095570817491u},{-90,816806210549266u},{-90,833672364332489u},{-90,968383004064264u},{-90,1002115311630710u},{-90,1103093643796039u},{-90,1195748194336761u},{-90,1498901781366757u},{-90,1802055368396753u},{-90,2105208955426749u},{-90,2997803562733514u},{-90,3604110736793506u},{-90,4951435724645265u},{-90,5995607125467028u},{-90,7208221473587012u},{-90,8252392874408775u},{-90,8858700048468767u},{-90,9902871449290530u},{-90,10947042850112293u},{-90,15460614347995787u},{-90,16504785748817550u},{-90,17548957149639313u},{-90,19805742898581060u},{-90,25363485797286317u},{-90,27451828598929843u},{-90,33009571497635100u},{-90,39611485797162120u},{-90,47257571497510903u},{-90,58373057294921417u},{-90,66019142995270200u},{-90,71576885893975457u},{-90,79222971594324240u},{-90,86869057294673023u},{-90,94515142995021806u},{-90,132038285990540400u},{-90,139684371690889183u},{-90,158445943188648480u},{-90,166092028888997263u},{-90,173738114589346046u},{-90,271722657681429583u},{-90,332184057777994526u},{-90,347476229178692092u},{-90,445460772270775629u},{-90,460752943671473195u},{-90,558737486763556732u},{-90,566383572463905515u},{-90,664368115555989052u},{-90,792937001449467721u},{-90,890921544541551258u},{-90,1019490430435029927u},{-90,1050074773236425059u},{-90,1086890630725718332u},{-90,1117474973527113464u},{-90,1132767144927811030u},{-90,1457305117005456773u},{-90,1910411974976581185u},{-90,2590072261933267803u},{-90,2914610234010913546u},{-90,3496285977875516627u},{-90,3820823949953162370u},{-90,4598468780001932525u},{-90,5180144523866535606u},{-90,6410896211886430173u},{-90,7641647899906324740u},{-90,8872399587926219307u},{-90,9062137159422488240u},{-90,9129537359713176645u},{-90,9196937560003865050u},{-90,9264337760294553455u},
{-89,100211531163071u},{-89,105249518244637u},{-89,110287505326203u},{-89,129672652650209u},{-89,200423062326142u},{-89,633249302006347u},{-89,687133557899057u},{-89,929612709416252u},{-89,943193068656434u},{-89,990287144929053u},{-89,1266498604012694u},{-89,1374267115798114u},{-89,1650478574881755u},{-89,1980574289858106u},{-89,2256785748941747u},{-89,3024745690679869u},{-89,3300957149763510u},{-89,3684937120632571u},{-89,3961148579716212u},{-89,4237360038799853u},{-89,6325702840443379u},{-89,6601914299527020u},{-89,7369874241265142u},{-89,7922297159432424u},{-89,8474720077599706u},{-89,10286851420159591u},{-89,10839274338326873u},{-89,12651405680886758u},{-89,13203828599054040u},{-89,13756251517221322u},{-89,15844594318864848u},{-89,18761571497759297u},{-89,23490680019213631u},{-89,26407657198108080u},{-89,31689188637729696u},{-89,39335274338078479u},{-89,52815314396216160u},{-89,63378377275459392u},{-89,92150588734294639u},{-89,103818497449872435u},{-89,105630628792432320u},{-89,107442760134992205u},{-89,113276714492781103u},{-89,126756754550918784u},{-89,184301177468589278u},{-89,197781217526726959u},{-89,226553428985562206u},{-89,240033469043699887u},{-89,368602354937178556u},{-89,382082394995316237u},{-89,395562435053453918u},{-89,453106857971124412u},{-89,466586898029262093u},{-89,750684749932494793u},{-89,764164789990632474u},{-89,777644830048770155u},{-89,906213715942248824u},{-89,919693756000386505u},{-89,933173796058524186u},{-89,946653836116661867u},{-89,1514849539923127267u},{-89,1528329579981264948u},{-89,1541809620039402629u},{-89,1825907471942635329u},{-89,1839387512000773010u},{-89,3043179119904392215u},{-89,3056659159962529896u},{-89,3678775024001546020u},{-89,4882566631905165225u},{-89,6113318319925059792u},{-89,7357550048003092040u},{-89,8561341655906711245u},{-89,9765133263810330450u},
{-88,286988310262183u},{-88,308542012619267u},{-88,330095714976351u},{-88,351649417333435u},{-88,617084025238534u},{-88,660191429952702u},{-88,703298834666870u},{-88,957956591393427u},{-88,1044171400821763u},{-88,1234168050477068u},{-88,1320382859905404u},{-88,1406597669333740u},{-88,2278339451298831u},{-88,2640765719810808u},{-88,4919105171109639u},{-88,5281531439621616u},{-88,5643957708133593u},{-88,9475784073707301u},{-88,9838210342219278u},{-88,10200636610731255u},{-88,10563062879243232u},{-88,10925489147755209u},{-88,11287915416267186u},{-88,20763699489974487u},{-88,21126125758486464u},{-88,21488552026998441u},{-88,28047358921811293u},{-88,28772211458835247u},{-88,42252251516972928u},{-88,42977104053996882u},{-88,56094717843622586u},{-88,71024462975808175u},{-88,84504503033945856u},{-88,95809985481011675u},{-88,98709395629107491u},{-88,142048925951616350u},{-88,155528966009754031u},{-88,183938751200077301u},{-88,297577891961370381u},{-88,311057932019508062u},{-88,367877502400154602u},{-88,608635823980878443u},{-88,622115864039016124u},{-88,735755004800309204u},{-88,762715084916584566u},{-88,949553246264757683u},{-88,976513326381033045u},{-88,1217271647961756886u},{-88,1244231728078032248u},{-88,1471510009600618408u},{-88,1712268331181342249u},{-88,1953026652762066090u},{-88,2193784974342789931u},{-88,2434543295923513772u},{-88,2943020019201236816u},{-88,3424536662362684498u},{-88,3906053305524132180u},{-88,5886040038402473632u},{-88,6849073324725368996u},{-88,7812106611048264360u},{-88,9551335022345881971u},
{-87,102660437002313u},{-87,135551692150267u},{-87,140659766933374u},{-87,281319533866748u},{-87,562639067733496u},{-87,762851866955015u},{-87,838850526817137u},{-87,914849186679259u},{-87,1049279475604870u},{-87,1066846506403503u},{-87,1125278135466992u},{-87,1677701053634274u},{-87,2040127322146251u},{-87,4080254644292502u},{-87,4442680912804479u},{-87,5319530769552677u},{-87,6044383306576631u},{-87,8160509288585004u},{-87,8885361825608958u},{-87,9189356465057446u},{-87,9306219723184424u},{-87,9855777373017911u},{-87,9972640631144889u},{-87,10639061539105354u},{-87,12088766613153262u},{-87,14204892595161635u},{-87,16321018577170008u},{-87,17770723651217916u},{-87,28409785190323270u},{-87,56819570380646540u},{-87,81663524514913529u},{-87,86679060645017718u},{-87,95143564573051210u},{-87,113639140761293080u},{-87,127119180819430761u},{-87,195302665276206609u},{-87,286213977885241073u},{-87,390605330552413218u},{-87,722274964742171523u},{-87,781210661104826436u},{-87,840146357467481349u},{-87,1144855911540964292u},{-87,1562421322209652872u},{-87,2102873661733755467u},{-87,2584390304895203149u},{-87,3124842644419305744u},{-87,3665294983943408339u},{-87,4205747323467510934u},{-87,6249685288838611488u},{-87,6790137628362714083u},{-87,7330589967886816678u},{-87,8411494646935021868u},{-87,8951946986459124463u},{-87,9659175342810983419u},{-87,9797108880056710001u},
{-86,103781840226969u},{-86,104354893893728u},{-86,104927947560487u},{-86,105501001227246u},{-86,106074054894005u},{-86,152570373391003u},{-86,209855895120974u},{-86,305140746782006u},{-86,323853884914157u},{-86,419711790241948u},{-86,438424928374099u},{-86,610281493564012u},{-86,743565675156105u},{-86,876849856748198u},{-86,953994623943838u},{-86,970415547408953u},{-86,1220562987128024u},{-86,1353847168720117u},{-86,1487131350312210u},{-86,1620415531904303u},{-86,2707694337440234u},{-86,2840978519032327u},{-86,2974262700624420u},{-86,3832399419240467u},{-86,5681957038064654u},{-86,7664798838480934u},{-86,9514356457305121u},{-86,11363914076129308u},{-86,13213471694953495u},{-86,15329597676961868u},{-86,19028712914610242u},{-86,22727828152258616u},{-86,26426943389906990u},{-86,38057425829220484u},{-86,45455656304517232u},{-86,66333926837951661u},{-86,90911312609034464u},{-86,100692237429523771u},{-86,105707773559627960u},{-86,110473162250013078u},{-86,115488698380117267u},{-86,132667853675903322u},{-86,181822625218068928u},{-86,191603550038558235u},{-86,265335707351806644u},{-86,275116632172295951u},{-86,373426175256627163u},{-86,383207100077116470u},{-86,953252361502406057u},{-86,992376060784363285u},
{-85,114571043459942u},{-85,148713135031221u},{-85,232426271612907u},{-85,297426270062442u},{-85,461568358532791u},{-85,594852540124884u},{-85,919852532372559u},{-85,923136717065582u},{-85,926420901758605u},{-85,929705086451628u},{-85,1186420895556745u},{-85,1189705080249768u},{-85,2379410160499536u},{-85,2642694338990699u},{-85,5022104499490235u},{-85,5285388677981398u},{-85,5548672856472561u},{-85,6608377939823259u},{-85,7134946296805585u},{-85,7661514653787911u},{-85,10044208998980470u},{-85,10570777355962796u},{-85,11097345712945122u},{-85,14269892593611170u},{-85,17179155295786055u},{-85,21141554711925592u},{-85,24577385771082803u},{-85,38320710007711647u},{-85,49154771542165606u},{-85,58935696362654913u},{-85,76641420015423294u},{-85,92741165119700513u},{-85,94597291107910746u},{-85,96453417096120979u},{-85,153282840030846588u},{-85,170988563683614969u},{-85,198475212156872657u},{-85,233886659462409419u},{-85,306565680061693176u},{-85,341977127367229938u},{-85,756633275333743633u},{-85,793900848627490628u},{-85,935546637849637676u},{-85,972814211143384671u},{-85,1188995146953025709u},{-85,1405176082762666747u},{-85,1513266550667487266u},{-85,1945628422286769342u},{-85,2377990293906051418u},{-85,4070170207089432727u},{-85,4934893950327996879u},{-85,5799617693566561031u},{-85,7096703308424407259u},{-85,8140340414178865454u},{-85,8826150794901535563u},{-85,9869787900655993758u},
{-84,116999997209163u},{-84,120284181902186u},{-84,142999996588977u},{-84,185284180351721u},{-84,237284179111349u},{-84,370568360703442u},{-84,474568358222698u},{-84,685852537954233u},{-84,741136721406884u},{-84,949136716445396u},{-84,1004420899898047u},{-84,1059705083350698u},{-84,1426989259361117u},{-84,2008841799796094u},{-84,2853978518722234u},{-84,3435831059157211u},{-84,4017683599592188u},{-84,4599536140027165u},{-84,5707957037444468u},{-84,6871662118314422u},{-84,9530777380770236u},{-84,9559788086678703u},{-84,11415914074888936u},{-84,13743324236628844u},{-84,16542018571898427u},{-84,20033133814508289u},{-84,30285342808527271u},{-84,80132535258033156u},{-84,87586049916782555u},{-84,95039564575531954u},{-84,143501915210357281u},{-84,424908356960532677u},{-84,439815386278031475u},{-84,641089292770173715u},{-84,849816713921065354u},{-84,879630772556062950u},{-84,1058544135071956993u},{-84,1088358193706954589u},{-84,1118172252341952185u},{-84,1282178585540347430u},{-84,4085077236406931525u},{-84,4502532078708714803u},{-84,8170154472813863050u},{-84,9511932164918297205u},{-84,9661031468799193652u},{-84,9810130772680090099u},
{-83,100715812826233u},{-83,107284182212279u},{-83,110458975639554u},{-83,159284180971907u},{-83,178770506598549u},{-83,263284178491163u},{-83,318568361943814u},{-83,357541013197098u},{-83,412825196649749u},{-83,825650393299498u},{-83,919907228005433u},{-83,958879879258717u},{-83,991502943657451u},{-83,1745557621304931u},{-83,1839814456010866u},{-83,3585372077315797u},{-83,3679628912021732u},{-83,4937590827597621u},{-83,5126104497009491u},{-83,7359257824043464u},{-83,7642028328161269u},{-83,9875181655195242u},{-83,10252208994018982u},{-83,12485362321052955u},{-83,15284056656322538u},{-83,17517209983356511u},{-83,22737571315071937u},{-83,24970724642105910u},{-83,35034419966713022u},{-83,52928657288893273u},{-83,73056047938107497u},{-83,87963077255606295u},{-83,102870106573105093u},{-83,105857314577786546u},{-83,117777135890603891u},{-83,128217858554034743u},{-83,175926154511212590u},{-83,223634450468390437u},{-83,256435717108069486u},{-83,351852309022425180u},{-83,369746546344605431u},{-83,447268900936780874u},{-83,465163138258961125u},{-83,512871434216138972u},{-83,703704618044850360u},{-83,817015447281386305u},{-83,930326276517922250u},{-83,954165919143556940u},{-83,960111324447011379u},{-83,1025742868432277944u},{-83,1329886881497525277u},{-83,1634030894562772610u},{-83,2051485736864555888u},{-83,2355629749929803221u},{-83,2659773762995050554u},{-83,3268061789125545220u},{-83,3572205802190792553u},{-83,4711259499859606442u},{-83,5015403512924853775u},{-83,5319547525990101108u},{-83,6536123578251090440u},{-83,6840267591316337773u},{-83,7144411604381585106u},{-83,9422518999719212884u},
{-82,149541018158586u},{-82,168392385099773u},{-82,2346261528681095u},{-82,2421666996445843u},{-82,2497072464210591u},{-82,2572477931975339u},{-82,2647883399740087u},{-82,4994144928421182u},{-82,5144955863950678u},{-82,7302703723219903u},{-82,7604325594278895u},{-82,9988289856842364u},{-82,10289911727901356u},{-82,10591533598960348u},{-82,15208651188557790u},{-82,17592615451121259u},{-82,19976579713684728u},{-82,32801266639679049u},{-82,35185230902242518u},{-82,37569195164805987u},{-82,47708295957177847u},{-82,70370461804485036u},{-82,93032627651792225u},{-82,95416591914355694u},{-82,99007043661155131u},{-82,118078757761662883u},{-82,140740923608970072u},{-82,163403089456277261u},{-82,186065255303584450u},{-82,236157515523325766u},{-82,281481847217940144u},{-82,326806178912554522u},{-82,372130510607168900u},{-82,562963694435880288u},{-82,653612357825109044u},{-82,744261021214337800u},{-82,821783375806513243u},{-82,880234016298180934u},{-82,944630062093303064u},{-82,1003080702584970755u},{-82,1125927388871760576u},{-82,1184378029363428267u},{-82,1307224715650218088u},{-82,1488522042428675600u},{-82,2006161405169941510u},{-82,2614449431300436176u},{-82,3526881470496178175u},{-82,4012322810339883020u},{-82,5228898862600872352u},{-82,6322628228575071863u},{-82,7053762940992356350u},{-82,8024645620679766040u},{-82,8755780333097050527u},
{-81,112092267750394u},{-81,130943634691581u},{-81,393846837971471u},{-81,469252305736219u},{-81,544657773500967u},{-81,733171442912837u},{-81,787693675942942u},{-81,938504611472438u},{-81,1034793313971829u},{-81,1089315547001934u},{-81,1143837780032039u},{-81,1520865118855779u},{-81,1877009222944876u},{-81,3041730237711558u},{-81,3397874341800655u},{-81,6083460475423116u},{-81,8467424737986585u},{-81,9506846344345409u},{-81,9564867756162343u},{-81,9753945982374296u},{-81,9811967394191230u},{-81,10495244896460957u},{-81,12166920950846232u},{-81,13838597005231507u},{-81,16934849475973170u},{-81,18606525530358445u},{-81,20990489792921914u},{-81,30773446481204677u},{-81,37213051060716890u},{-81,67986497541921567u},{-81,74426102121433780u},{-81,77522354592175443u},{-81,83961959171687656u},{-81,135972995083843134u},{-81,142412599663355347u},{-81,148852204242867560u},{-81,200616140516994151u},{-81,297704408485735120u},{-81,304144013065247333u},{-81,401232281033988302u},{-81,498320549002729271u},{-81,595408816971470240u},{-81,608288026130494666u},{-81,705376294099235635u},{-81,802464562067976604u},{-81,899552830036717573u},{-81,996641098005458542u},{-81,1093729365974199511u},{-81,1190817633942940480u},{-81,1410752588198471270u},{-81,1604929124135953208u},{-81,2821505176396942540u},{-81,3209858248271906416u},{-81,4523522568501636717u},{-81,7733380816773543133u},{-81,9047045137003273434u},{-81,9732608418087914656u},{-81,9847532901967018942u},{-81,9857431901478935573u},{-81,9972356385358039859u},
{-80,102203755041101u},{-80,113108201647122u},{-80,237120849900265u},{-80,657765975148089u},{-80,679574868360131u},{-80,701383761572173u},{-80,952186033510656u},{-80,966589658903506u},{-80,981196739419123u},{-80,995803819934740u},{-80,1024814525843207u},{-80,1359149736720262u},{-80,1693484947597317u},{-80,2049629051686414u},{-80,2383964262563469u},{-80,2718299473440524u},{-80,3721305106071689u},{-80,5436598946881048u},{-80,6105269368635158u},{-80,6773939790389268u},{-80,7442610212143378u},{-80,8445615844774543u},{-80,9782956688282763u},{-80,13547879580778536u},{-80,14885220424286756u},{-80,16891231689549086u},{-80,20656154582044859u},{-80,23330836269061299u},{-80,29770440848573512u},{-80,37547386271593945u},{-80,46661672538122598u},{-80,50426595430618371u},{-80,59540881697147024u},{-80,65980486276659237u},{-80,75094772543187890u},{-80,100853190861236742u},{-80,109967477127765395u},{-80,119081763394294048u},{-80,131960972553318474u},{-80,141075258819847127u},{-80,150189545086375780u},{-80,229049240522059443u},{-80,238163526788588096u},{-80,273036231373165601u},{-80,282150517639694254u},{-80,291264803906222907u},{-80,467212767310647539u},{-80,476327053577176192u},{-80,564301035279388508u},{-80,749363284950341793u},{-80,934425534621295078u},{-80,952654107154352384u},{-80,977220441613558118u},{-80,982773490294318568u},{-80,998225538486995649u},{-80,1128602070558777016u},{-80,1498726569900683586u},{-80,1702017392104694177u},{-80,2257204141117554032u},{-80,2830619462663471193u},{-80,3404034784209388354u},{-80,3570868461347284333u},{-80,4514408282235108064u},{-80,5087823603781025225u},{-80,5661238925326942386u},{-80,7881985921378381806u},{-80,8455401242924298967u},{-80,9028816564470216128u},
{-79,122829637744801u},{-79,144638530956843u},{-79,189696679920212u},{-79,222410019738275u},{-79,289277061913686u},{-79,356144104089097u},{-79,869271548280343u},{-79,889640078953100u},{-79,1003005632631165u},{-79,1136739716981987u},{-79,1270473801332809u},{-79,1738543096560686u},{-79,6439604579512213u},{-79,7509477254318789u},{-79,8579349929125365u},{-79,9649222603931941u},{-79,10204527472007986u},{-79,10719095278738517u},{-79,11274400146814562u},{-79,11788967953545093u},{-79,15018954508637578u},{-79,21993495425553079u},{-79,30037909017275156u},{-79,43986990851106158u},{-79,50961531768021659u},{-79,60075818034550312u},{-79,87973981702212316u},{-79,97088267968740969u},{-79,97480624591434958u},{-79,98035929459511003u},{-79,98591234327587048u},{-79,120151636069100624u},{-79,157164086003291281u},{-79,194176535937481938u},{-79,259087149539334599u},{-79,333112049407715913u},{-79,499390421677535847u},{-79,647440221414298475u},{-79,979996965953938343u},{-79,998780843355071694u},{-79,1017564720756205045u},{-79,1294880442828596950u},{-79,1313664320229730301u},{-79,2035129441512410090u},{-79,2608544763058327251u},{-79,3496843561478903019u},{-79,4070258883024820180u},{-79,4643674204570737341u},{-79,6382704046609622175u},{-79,6993687122957806038u},{-79,8140517766049640360u},{-79,9287348409141474682u},{-79,9898331485489658545u},
{-78,111637118630923u},{-78,133157939335108u},{-78,134310229366536u},{-78,177928015790620u},{-78,200601126526233u},{-78,401202253052466u},{-78,512263226667675u},{-78,691343532489723u},{-78,802404506104932u},{-78,913465479720141u},{-78,1004157922662593u},{-78,1024526453335350u},{-78,1115218896277802u},{-78,1135587426950559u},{-78,1715869985825073u},{-78,1826930959440282u},{-78,3431739971650146u},{-78,3542800945265355u},{-78,6863479943300292u},{-78,6974540916915501u},{-78,9728764836453060u},{-78,9832539379986754u},{-78,9839825810068269u},{-78,9943600353601963u},{-78,9950886783683478u},{-78,13838020860215793u},{-78,13949081833831002u},{-78,27676041720431586u},{-78,27787102694046795u},{-78,55574205388093590u},{-78,73913838894766105u},{-78,92364533375053829u},{-78,92808777269514665u},{-78,111148410776187180u},{-78,129488044282859695u},{-78,147827677789532210u},{-78,203512944151241009u},{-78,258976088565719390u},{-78,407025888302482018u},{-78,517952177131438780u},{-78,684341610374873923u},{-78,814051776604964036u},{-78,943761942835054149u},{-78,1035904354262877560u},{-78,1073472109065144262u},{-78,1165614520492967673u},{-78,1276540809321924435u},{-78,1628103553209928072u},{-78,1979666297097931709u},{-78,2331229040985935346u},{-78,2553081618643848870u},{-78,2904644362531852507u},{-78,3256207106419856144u},{-78,3607769850307859781u},{-78,3959332594195863418u},{-78,5809288725063705014u},{-78,6512414212839712288u},{-78,7215539700615719562u},{-78,9977020946249878637u},{-78,9982603140650965147u},
{-77,102452645333535u},{-77,116517427787474u},{-77,119669301896883u},{-77,142342412632496u},{-77,156407195086435u},{-77,204905290667070u},{-77,284684825264992u},{-77,298749607718931u},{-77,409810581334140u},{-77,423875363788079u},{-77,597499215437862u},{-77,708560189053071u},{-77,819621162668280u},{-77,972876483645306u},{-77,974333769661609u},{-77,975791055677912u},{-77,1306059404490933u},{-77,1417120378106142u},{-77,1528181351721351u},{-77,2612118808981866u},{-77,2723179782597075u},{-77,2834240756212284u},{-77,2945301729827493u},{-77,5446359565194150u},{-77,5557420538809359u},{-77,5668481512424568u},{-77,7891158270745051u},{-77,8113280217975469u},{-77,11114841077618718u},{-77,14782767778953221u},{-77,18561755453902933u},{-77,22229682155237436u},{-77,25897608856571939u},{-77,29565535557906442u},{-77,37123510907805866u},{-77,44459364310474872u},{-77,51795217713143878u},{-77,59131071115812884u},{-77,70134851219816393u},{-77,88918728620949744u},{-77,103590435426287756u},{-77,118262142231625768u},{-77,122374312827421107u},{-77,144381873035428125u},{-77,207180870852575512u},{-77,240636455059046875u},{-77,255308161864384887u},{-77,288763746070856250u},{-77,414361741705151024u},{-77,447817325911622387u},{-77,510616323728769774u},{-77,544071907935241137u},{-77,828723483410302048u},{-77,862179067616773411u},{-77,895634651823244774u},{-77,1021232647457539548u},{-77,1054688231664010911u},{-77,1690902551027075459u},{-77,1724358135233546822u},{-77,2042465294915079096u},{-77,2075920879121550459u},{-77,3415260686260622281u},{-77,3448716270467093644u},{-77,4084930589830158192u},{-77,4118386174036629555u},{-77,6830521372521244562u},{-77,6863976956727715925u},{-77,8069494427040902295u},{-77,8102950011247373658u},{-77,8136405595453845021u},{-77,8236772348073259110u},{-77,8270227932279730473u},{-77,8303683516486201836u},
{-76,125125756069148u},{-76,163924232533656u},{-76,216787491452103u},{-76,327848465067312u},{-76,361312485753505u},{-76,433574982904206u},{-76,544635956519415u},{-76,655696930134624u},{-76,844354856678849u},{-76,867149965808412u},{-76,978210939423621u},{-76,1089271913038830u},{-76,1200332886654039u},{-76,1311393860269248u},{-76,2178543826077660u},{-76,2867704776898477u},{-76,3089826724128895u},{-76,4357087652155320u},{-76,5268370550206555u},{-76,6424570504617771u},{-76,8247136300720241u},{-76,8714175304310640u},{-76,10536741100413110u},{-76,11003780104003509u},{-76,16961311605030881u},{-76,21540521204416619u},{-76,28876374607085625u},{-76,33922623210061762u},{-76,48127291011809375u},{-76,57752749214171250u},{-76,62798997817147387u},{-76,96254582023618750u},{-76,99615035485269795u},{-76,99786259537307160u},{-76,99830806821303716u},{-76,115505498428342500u},{-76,159053579840766137u},{-76,192509164047237500u},{-76,231010996856685000u},{-76,318107159681532274u},{-76,351562743888003637u},{-76,428566409506898637u},{-76,669669903569535911u},{-76,703125487776007274u},{-76,823677234807325911u},{-76,857132819013797274u},{-76,890588403220268637u},{-76,1339339807139071822u},{-76,1372795391345543185u},{-76,1613898885408180459u},{-76,1647354469614651822u},{-76,2712135198484615007u},{-76,2745590782691086370u},{-76,3261253355022832281u},{-76,3294708939229303644u},{-76,5457725981175701377u},{-76,5491181565382172740u},{-76,6522506710045664562u},{-76,6555962294252135925u},{-76,6589417878458607288u},{-76,6622873462665078651u},
{-75,104659626681231u},{-75,108927191303883u},{-75,113194755926535u},{-75,144524994301402u},{-75,148792558924054u},{-75,217854382607766u},{-75,289049988602804u},{-75,435708765215532u},{-75,617965344825779u},{-75,689160950820817u},{-75,871417530431064u},{-75,1053674110041311u},{-75,1133404845281653u},{-75,1156199954411216u},{-75,1235930689651558u},{-75,1378321901641634u},{-75,1742835060862128u},{-75,2107348220082622u},{-75,2471861379303116u},{-75,3485670121724256u},{-75,4214696440165244u},{-75,5775274921417125u},{-75,9625458202361875u},{-75,9966654785321521u},{-75,9978625953730716u},{-75,11550549842834250u},{-75,19250916404723750u},{-75,23101099685668500u},{-75,38501832809447500u},{-75,43548081412423637u},{-75,46202199371337000u},{-75,74349547659981637u},{-75,77003665618895000u},{-75,87096162824847274u},{-75,92404398742674000u},{-75,97712634660500726u},{-75,120551747031318637u},{-75,125859982949145363u},{-75,148699095319963274u},{-75,154007331237790000u},{-75,184808797485348000u},{-75,274559078269108637u},{-75,336162010764224637u},{-75,549118156538217274u},{-75,638868437321977911u},{-75,672324021528449274u},{-75,705779605734920637u},{-75,1031325144663491822u},{-75,1064780728869963185u},{-75,1098236313076434548u},{-75,1131691897282905911u},{-75,1165147481489377274u},{-75,1311192458850427185u},{-75,2196472626152869096u},{-75,2622384917700854370u},{-75,2655840501907325733u},{-75,4359489668099266829u},{-75,4392945252305738192u},{-75,5244769835401708740u},{-75,5278225419608180103u},{-75,8752434920405005021u},{-75,8785890504611476384u},
{-74,111060973615209u},{-74,112205943743000u},{-74,142391211990076u},{-74,242627116104399u},{-74,749531487314969u},{-74,790541825062931u},{-74,995802100655255u},{-74,997361986927038u},{-74,998196334337094u},{-74,999756220608877u},{-74,1155054984283425u},{-74,1499062974629938u},{-74,1581083650125862u},{-74,1925091640472375u},{-74,2310109968566850u},{-74,2736138634409287u},{-74,3424154615102313u},{-74,3850183280944750u},{-74,4194191271291263u},{-74,4620219937133700u},{-74,5046248602976137u},{-74,7274337896047063u},{-74,8290436578723785u},{-74,8388382542582526u},{-74,9240439874267400u},{-74,11894557833180763u},{-74,12746615164865637u},{-74,15400733123779000u},{-74,18480879748534800u},{-74,21987055039133037u},{-74,27295290956959763u},{-74,30801466247558000u},{-74,36961759497069600u},{-74,45776170705494563u},{-74,52788521286691037u},{-74,61602932495116000u},{-74,73923518994139200u},{-74,89750280783760637u},{-74,105577042573382074u},{-74,107379103200610563u},{-74,121403804363003511u},{-74,123205864990232000u},{-74,147847037988278400u},{-74,179500561567521274u},{-74,212956145773992637u},{-74,246411729980464000u},{-74,262238491770085437u},{-74,295694075976556800u},{-74,425912291547985274u},{-74,459367875754456637u},{-74,524476983540170874u},{-74,557932567746642237u},{-74,851824583095970548u},{-74,885280167302441911u},{-74,1004686019110499451u},{-74,1011894261619413407u},{-74,1019102504128327363u},{-74,1048953967080341748u},{-74,1082409551286813111u},{-74,1737104750398412459u},{-74,1770560334604883822u},{-74,2097907934160683496u},{-74,2786058717478754207u},{-74,3474209500796824918u},{-74,3541120669209767644u},{-74,4195815868321366992u},{-74,4950877820052380429u},{-74,5572117434957508414u},{-74,6327179386688521851u},{-74,7703480953324663273u},{-74,8391631736642733984u},{-74,9146693688373747421u},{-74,9901755640104760858u},
{-73,133502162363809u},{-73,174512500111771u},{-73,231010996856685u},{-73,267004324727618u},{-73,349025000223542u},{-73,385018328094475u},{-73,462021993713370u},{-73,580035997080227u},{-73,652022652822093u},{-73,770036656188950u},{-73,878016639801749u},{-73,924043987426740u},{-73,970071335051731u},{-73,1114044646535463u},{-73,1350072653269177u},{-73,1540073312377900u},{-73,1658087315744757u},{-73,1848087974853480u},{-73,2038088633962203u},{-73,2890145965647077u},{-73,3080146624755800u},{-73,3696175949706960u},{-73,4738233940500557u},{-73,5118235258718003u},{-73,6160293249511600u},{-73,7392351899413920u},{-73,8434409890207517u},{-73,9476467881001114u},{-73,10236470517436006u},{-73,11278528508229603u},{-73,12320586499023200u},{-73,14784703798827840u},{-73,18670880407643523u},{-73,20754996389230717u},{-73,24641172998046400u},{-73,29569407597655680u},{-73,35539700188058557u},{-73,49282345996092800u},{-73,59138815195311360u},{-73,65109107785714237u},{-73,98564691992185600u},{-73,100930863328131499u},{-73,101040591829207758u},{-73,118277630390622720u},{-73,163673799777899837u},{-73,197129383984371200u},{-73,236555260781245440u},{-73,327347599555799674u},{-73,360803183762271037u},{-73,530447276130573751u},{-73,721606367524542074u},{-73,821973120143956163u},{-73,936646629280121905u},{-73,946221043124981760u},{-73,1567460658030109745u},{-73,2131363518367154859u},{-73,2379859364329206053u},{-73,3507665085003296281u},{-73,4759718728658412106u},{-73,6011772372313527931u},{-73,7015330170006592562u},{-73,8267383813661708387u},{-73,9519437457316824212u},
{-72,148815469614415u},{-72,154007331237790u},{-72,159199192861165u},{-72,184808797485348u},{-72,308014662475580u},{-72,369617594970696u},{-72,616029324951160u},{-72,682824119069651u},{-72,739235189941392u},{-72,795646260813133u},{-72,1062825437287097u},{-72,1119236508158838u},{-72,1175647579030579u},{-72,1478470379882784u},{-72,2464117299804640u},{-72,2956940759765568u},{-72,4928234599609280u},{-72,5913881519531136u},{-72,9856469199218560u},{-72,10082113482705524u},{-72,10194935624449006u},{-72,11827763039062272u},{-72,19712938398437120u},{-72,23655526078124544u},{-72,37510994027902269u},{-72,39425876796874240u},{-72,45396169387277117u},{-72,47311052156249088u},{-72,76936870824776509u},{-72,78851753593748480u},{-72,88877456005582263u},{-72,90792338774554234u},{-72,92707221543526205u},{-72,94622104312498176u},{-72,96536987081470147u},{-72,98451869850442118u},{-72,153873741649553018u},{-72,155788624418524989u},{-72,157703507187496960u},{-72,159618389956468931u},{-72,187329325856024381u},{-72,189244208624996352u},{-72,311577248837049978u},{-72,313492131606021949u},{-72,374658651712048762u},{-72,376573534481020733u},{-72,625069380443071927u},{-72,626984263212043898u},{-72,749317303424097524u},{-72,753147068962041466u},{-72,999728032155120689u},{-72,1003557797693064631u},{-72,1250138760886143854u},{-72,1253968526424087796u},{-72,2754518016041254815u},
{-71,110745397094132u},{-71,114898886392832u},{-71,119052375691532u},{-71,123205864990232u},{-71,127359354288932u},{-71,181693680511323u},{-71,190000659108723u},{-71,246411729980464u},{-71,306976290150905u},{-71,363387361022646u},{-71,436412389089187u},{-71,492823459960928u},{-71,557541509430069u},{-71,613952580301810u},{-71,670363651173551u},{-71,929235849050115u},{-71,985646919921856u},{-71,1008830076403997u},{-71,1018874834311456u},{-71,1115083018860138u},{-71,1227905160603620u},{-71,1543188429351925u},{-71,1656010571095407u},{-71,1971293839843712u},{-71,3086376858703850u},{-71,3514482269195637u},{-71,3942587679687424u},{-71,5114081769419303u},{-71,5970292590402877u},{-71,7028964538391274u},{-71,7885175359374848u},{-71,8313280769866635u},{-71,8515741896871458u},{-71,10228163538838606u},{-71,13855467949777725u},{-71,15770350718749696u},{-71,16626561539733270u},{-71,18541444308705241u},{-71,20456327077677212u},{-71,29625818668527421u},{-71,31540701437499392u},{-71,35168005848438511u},{-71,37082888617410482u},{-71,38997771386382453u},{-71,61166520106026813u},{-71,63081402874998784u},{-71,64996285643970755u},{-71,70336011696877022u},{-71,72250894465848993u},{-71,74165777234820964u},{-71,76080660003792935u},{-71,77995542772764906u},{-71,79910425541736877u},{-71,120418157443081655u},{-71,122333040212053626u},{-71,124247922981025597u},{-71,126162805749997568u},{-71,128077688518969539u},{-71,129992571287941510u},{-71,148331554469641928u},{-71,152161320007585870u},{-71,198413700215846561u},{-71,202243465753790503u},{-71,248495845962051194u},{-71,252325611499995136u},{-71,550903603208250963u},{-71,651067894700660229u},{-71,751232186193069495u},{-71,1009302445999980544u},{-71,1036405998518521525u},{-71,1101807206416501926u},{-71,1302135789401320458u},{-71,1502464372386138990u},{-71,2203614412833003852u},{-71,2604271578802640916u},{-71,3004928744772277980u},{-71,4407228825666007704u},{-71,8814457651332015408u},{-71,9272856494123744989u},{-71,9731255336915474570u},
{-70,101039604525964u},{-70,101115988116543u},{-70,101192371707122u},{-70,101268755297701u},{-70,101345138888280u},{-70,101421522478859u},{-70,122790516060362u},{-70,179201586932103u},{-70,185847169810023u},{-70,245581032120724u},{-70,308637685870385u},{-70,371694339620046u},{-70,491162064241448u},{-70,617275371740770u},{-70,743388679240092u},{-70,882793152495254u},{-70,932558640489075u},{-70,982324128482896u},{-70,1234550743481540u},{-70,1536542846474005u},{-70,1662656153973327u},{-70,2469101486963080u},{-70,2771093589955545u},{-70,3325312307946654u},{-70,5240195076918625u},{-70,5542187179911090u},{-70,6650624615893308u},{-70,8565507384865279u},{-70,9169491590850209u},{-70,10480390153837250u},{-70,11084374359822180u},{-70,12999257128794151u},{-70,13301249231786616u},{-70,15216132000758587u},{-70,17131014769730558u},{-70,24083631488616331u},{-70,25998514257588302u},{-70,30432264001517174u},{-70,41214646258346889u},{-70,48167262977232662u},{-70,51997028515176604u},{-70,60864528003034348u},{-70,89381909235579551u},{-70,101873313959346875u},{-70,102580228316348986u},{-70,103287142673351097u},{-70,103994057030353208u},{-70,121729056006068696u},{-70,150246437238613899u},{-70,178763818471159102u},{-70,271975493244682595u},{-70,300492874477227798u},{-70,329010255709773001u},{-70,429174547202182267u},{-70,600985748954455596u},{-70,772796950706728925u},{-70,829831713171819331u},{-70,858349094404364534u},{-70,859056008761366645u},{-70,973125533691547457u},{-70,1201971497908911192u},{-70,1946251067383094914u},{-70,2175097031600458649u},{-70,2403942995817822384u},{-70,4350194063200917298u},{-70,5723976762862101819u},{-70,6181668691296829289u},{-70,7326605426740650075u},{-70,8700388126401834596u},
{-69,118138608045818u},{-69,123455074348154u},{-69,128771540650490u},{-69,186511728097815u},{-69,246910148696308u},{-69,307308569294801u},{-69,373023456195630u},{-69,433421876794123u},{-69,493820297392616u},{-69,554218717991109u},{-69,614617138589602u},{-69,685648491792767u},{-69,746046912391260u},{-69,806445332989753u},{-69,1048039015383725u},{-69,1108437435982218u},{-69,1168835856580711u},{-69,1229234277179204u},{-69,1975281189570464u},{-69,2096078030767450u},{-69,2216874871964436u},{-69,2337671713161422u},{-69,4192156061534900u},{-69,4433749743928872u},{-69,6711023036491801u},{-69,8867499487857744u},{-69,10057601209647799u},{-69,10093334590007409u},{-69,10281328201861966u},{-69,10317061582221576u},{-69,10782382256829715u},{-69,15095335159561601u},{-69,19408288062293487u},{-69,21564764513659430u},{-69,32830334135277089u},{-69,41456239940740861u},{-69,54395098648936519u},{-69,71646910259864063u},{-69,82912479881481722u},{-69,85552143697635609u},{-69,86259058054637720u},{-69,96817713319253268u},{-69,97524627676255379u},{-69,108790197297873038u},{-69,120055766919490697u},{-69,143293820519728126u},{-69,154559390141345785u},{-69,165824959762963444u},{-69,171811201752273329u},{-69,217580394595746076u},{-69,263349587439218823u},{-69,526699174878437646u},{-69,572468367721910393u},{-69,618237560565383140u},{-69,1053398349756875292u},{-69,1144936735443820786u},{-69,1236475121130766280u},{-69,1465321085348130015u},{-69,1648397856722021003u},{-69,2930642170696260030u},{-69,4304424870357444551u},{-69,4670578413105226527u},{-69,5861284341392520060u},{-69,7601220583801486557u},
{-68,103017232520392u},{-68,106590570556353u},{-68,110163908592314u},{-68,149209382478252u},{-68,152782720514213u},{-68,209607803076745u},{-68,298418764956504u},{-68,301992102992465u},{-68,419215606153490u},{-68,596837529913008u},{-68,600410867948969u},{-68,838431212306980u},{-68,1200821735897938u},{-68,1438842080255949u},{-68,1676862424613960u},{-68,1914882768971971u},{-68,2156476451365943u},{-68,2877684160511898u},{-68,3353724849227920u},{-68,4074932558373875u},{-68,4312952902731886u},{-68,5510201300593863u},{-68,6707449698455840u},{-68,8149865116747750u},{-68,8625905805463772u},{-68,9116239846323638u},{-68,9823154203325749u},{-68,11020402601187726u},{-68,17251811610927544u},{-68,28517381232545203u},{-68,30911878028269157u},{-68,33306374823993111u},{-68,34503623221855088u},{-68,43374696047748793u},{-68,48163689639196701u},{-68,61823756056538314u},{-68,69007246443710176u},{-68,77878319269603881u},{-68,86749392095497586u},{-68,96327379278393402u},{-68,105198452104287107u},{-68,114776439287182923u},{-68,123647512113076628u},{-68,132518584938970333u},{-68,137307578530418241u},{-68,155756638539207762u},{-68,228845964217363735u},{-68,247295024226153256u},{-68,265744084234942777u},{-68,274615157060836482u},{-68,293064217069626003u},{-68,311513277078415524u},{-68,476140988443516991u},{-68,494590048452306512u},{-68,586128434139252006u},{-68,787654265521932515u},{-68,952281976887033982u},{-68,989180096904613024u},{-68,1006215328199398323u},{-68,1026078216922192066u},{-68,1043113448216977365u},{-68,1062976336939771108u},{-68,1172256868278504012u},{-68,1373782699661184521u},{-68,1575308531043865030u},{-68,2344513736557008024u},{-68,2747565399322369042u},{-68,4084449978965974521u},{-68,4689027473114016048u},{-68,6428963715522982545u},{-68,7235067041053704581u},{-68,8699681212044832485u},{-68,9378054946228032096u},
{-67,100141145790981u},{-67,101709811410503u},{-67,103714483826942u},{-67,120796841196986u},{-67,167686242461396u},{-67,241593682393972u},{-67,335372484922792u},{-67,385835224223163u},{-67,526503428016393u},{-67,670744969845584u},{-67,814986511674775u},{-67,966374729575888u},{-67,1053006856032786u},{-67,1341489939691168u},{-67,1629973023349550u},{-67,2062697648837123u},{-67,2682979879382336u},{-67,3259946046699100u},{-67,4745677528219459u},{-67,5365959758764672u},{-67,6519892093398200u},{-67,7717140491260177u},{-67,8957704952350603u},{-67,9491355056438918u},{-67,10731919517529344u},{-67,11265569621617659u},{-67,12506134082708085u},{-67,13039784186796400u},{-67,13660066417341613u},{-67,15434280982520354u},{-67,42220763713115265u},{-67,45769192843472747u},{-67,49317621973830229u},{-67,65992467417441009u},{-67,91538385686945494u},{-67,100049072661664680u},{-67,101476758721015829u},{-67,102890587435020051u},{-67,105732102208375422u},{-67,131984934834882018u},{-67,157530853104386503u},{-67,183076771373890988u},{-67,289515787939268521u},{-67,315061706208773006u},{-67,340607624478277491u},{-67,604577494148041527u},{-67,630123412417546012u},{-67,655669330687050497u},{-67,1260246824835092024u},{-67,1285792743104596509u},{-67,1311338661374100994u},{-67,1739936242408966497u},{-67,2571585486209193018u},{-67,3403234730009419539u},{-67,5143170972418386036u},{-67,5974820216218612557u},{-67,6806469460018839078u},{-67,9454692701036545551u},
{-66,125485781323427u},{-66,131290323540348u},{-66,157192760118034u},{-66,162997302334955u},{-66,219264583852247u},{-66,250971562646854u},{-66,325994604669910u},{-66,545259188522157u},{-66,651989209339820u},{-66,683696188134427u},{-66,983788356226651u},{-66,1090518377044314u},{-66,1197248397861977u},{-66,1303978418679640u},{-66,2394496795723954u},{-66,2501226816541617u},{-66,2607956837359280u},{-66,3228239067904493u},{-66,3441699109539819u},{-66,5002453633083234u},{-66,5215913674718560u},{-66,6883398219079638u},{-66,8444152742623053u},{-66,10004907266166468u},{-66,10431827349437120u},{-66,11779121831345209u},{-66,16888305485246106u},{-66,23558243662690418u},{-66,28667427316591315u},{-66,33776610970492212u},{-66,77771589248786218u},{-66,82880772902687115u},{-66,89123790996860775u},{-66,94232974650761672u},{-66,99342158304662569u},{-66,155543178497572436u},{-66,160652362151473333u},{-66,165761545805374230u},{-66,800994141876821139u},{-66,821430876492424727u},{-66,841867611108028315u},{-66,862304345723631903u},{-66,882741080339235491u},{-66,903177814954839079u},{-66,1683735222216056630u},{-66,1724608691447263806u},{-66,2556257935247490327u},{-66,4239993157463546957u},{-66,5112515870494980654u},{-66,5944165114295207175u},{-66,7689210540358074569u},{-66,8479986314927093914u},{-66,9434255966420941963u},
{-65,122358684123658u},{-65,126378262995811u},{-65,130397841867964u},{-65,154065662918265u},{-65,158085241790418u},{-65,162104820662571u},{-65,256776104863775u},{-65,260795683735928u},{-65,308131325836530u},{-65,316170483580836u},{-65,414861346654193u},{-65,422900504398499u},{-65,521591367471856u},{-65,731031830235029u},{-65,829722693308386u},{-65,1011026103966488u},{-65,1027104419455100u},{-65,1043182734943712u},{-65,1059261050432324u},{-65,1149912755761375u},{-65,1462063660470058u},{-65,1774214565178741u},{-65,2185056332960781u},{-65,2809358142378147u},{-65,2924127320940116u},{-65,3548429130357482u},{-65,4172730939774848u},{-65,4484881844483531u},{-65,5733485463318263u},{-65,6982089082152995u},{-65,8230692700987727u},{-65,8345461879549696u},{-65,8740225331843124u},{-65,8854994510405093u},{-65,8969763688967062u},{-65,9084532867529031u},{-65,11466970926636526u},{-65,14078947342867959u},{-65,16576154580537423u},{-65,17824758199372155u},{-65,22933941853273052u},{-65,28043125507173949u},{-65,40758700052645207u},{-65,45867883706546104u},{-65,50977067360447001u},{-65,76637754808513455u},{-65,81517400105290414u},{-65,86856122116315249u},{-65,91735767413092208u},{-65,122390869336497590u},{-65,132609236644299384u},{-65,147936787606002075u},{-65,168373522221605663u},{-65,188810256837209251u},{-65,209246991452812839u},{-65,295873575212004150u},{-65,336747044443211326u},{-65,377620513674418502u},{-65,494902199357015195u},{-65,535775668588222371u},{-65,673494088886422652u},{-65,831649243800226521u},{-65,989804398714030390u},{-65,1066212615165419907u},{-65,1071551337176444742u},{-65,1188833022859041435u},{-65,1346988177772845304u},{-65,1505143332686649173u},{-65,2219510890804279001u},{-65,2377666045718082870u},{-65,2535821200631886739u},{-65,4439021781608558002u},{-65,4597176936522361871u},{-65,4755332091436165740u},{-65,8878043563217116004u},{-65,9036198718130919873u},{-65,9194353873044723742u},
{-64,102266247917173u},{-64,102710441945510u},{-64,103154635973847u},{-64,123252530334612u},{-64,188898374374071u},{-64,205420883891020u},{-64,229982551152275u},{-64,246505060669224u},{-64,377796748748142u},{-64,394319258265091u},{-64,459965102304550u},{-64,607779299900417u},{-64,788638516530182u},{-64,919930204609100u},{-64,986020242676896u},{-64,1100789421238865u},{-64,1396417816430599u},{-64,1692046211622333u},{-64,2316348021039699u},{-64,2792835632861198u},{-64,3269323244682697u},{-64,3564951639874431u},{-64,4632696042079398u},{-64,5585671265722396u},{-64,6653415667927363u},{-64,7129903279748862u},{-64,8197647681953829u},{-64,9265392084158796u},{-64,10103598129239825u},{-64,11171342531444792u},{-64,12239086933649759u},{-64,13306831335854726u},{-64,14259806559497724u},{-64,15327550961702691u},{-64,24478173867299518u},{-64,25545918269504485u},{-64,29587357521200415u},{-64,30655101923405382u},{-64,48956347734599036u},{-64,50024092136804003u},{-64,59174715042400830u},{-64,60242459444605797u},{-64,97912695469198072u},{-64,98980439871403039u},{-64,100048184273608006u},{-64,101115928675812973u},{-64,102183673078017940u},{-64,118349430084801660u},{-64,119417174487006627u},{-64,197960879742806078u},{-64,199028624145011045u},{-64,236698860169603320u},{-64,237766604571808287u},{-64,238834348974013254u},{-64,395921759485612156u},{-64,396989503887817123u},{-64,475533209143616574u},{-64,633688364057420443u},{-64,791843518971224312u},{-64,942524463069593412u},{-64,946795440678413280u},{-64,951066418287233148u},{-64,955337395896053016u},{-64,959608373504872884u},{-64,1109221573201037017u},{-64,1267376728114840886u},{-64,1902132836574466296u},{-64,2060287991488270165u},{-64,2218443146402074034u},{-64,3804265673148932592u},{-64,6817755571728845839u},{-64,7608531346297865184u},{-64,9673090315394955217u},
{-63,128164863786863u},{-63,164336707112816u},{-63,183986040921820u},{-63,220157884247773u},{-63,256329727573726u},{-63,292501570899679u},{-63,367972081843640u},{-63,440315768495546u},{-63,735944163687280u},{-63,880631536991092u},{-63,995400715553061u},{-63,1140088088856873u},{-63,1284775462160685u},{-63,2020719625847965u},{-63,2280176177713746u},{-63,3492607953222525u},{-63,4041439251695930u},{-63,5109183653900897u},{-63,5917471504240083u},{-63,9150622905596827u},{-63,10188449113059951u},{-63,10218367307801794u},{-63,10248285502543637u},{-63,11834943008480166u},{-63,19368990213398621u},{-63,20436734615603588u},{-63,23669886016960332u},{-63,38737980426797242u},{-63,39805724829002209u},{-63,47339772033920664u},{-63,48407516436125631u},{-63,78543705255799451u},{-63,79611449658004418u},{-63,88273077654611526u},{-63,90408566459021460u},{-63,92544055263431394u},{-63,96815032872251262u},{-63,98950521676661196u},{-63,159222899316008836u},{-63,189359088135682656u},{-63,222698510161971377u},{-63,285106376605728951u},{-63,412057598297654033u},{-63,570212753211457902u},{-63,824115196595308066u},{-63,857454618621596787u},{-63,1140425506422915804u},{-63,1173764928449204525u},{-63,1648230393190616132u},{-63,2314190434872120329u},{-63,4628380869744240658u},{-63,5294340911425744855u},{-63,9256761739488481316u},{-63,9922721781169985513u},
{-62,108515529977859u},{-62,111016989411503u},{-62,147188832737456u},{-62,182109946346587u},{-62,222033978823006u},{-62,256955092432137u},{-62,294377665474912u},{-62,404143925169593u},{-62,513910184864274u},{-62,588755330949824u},{-62,698521590644505u},{-62,808287850339186u},{-62,918054110033867u},{-62,1027820369728548u},{-62,1057738564470391u},{-62,1177510661899648u},{-62,1397043181289010u},{-62,1616575700678372u},{-62,1836108220067734u},{-62,2794086362578020u},{-62,3233151401356744u},{-62,3861830764782987u},{-62,4300895803561711u},{-62,4520428322951073u},{-62,5588172725156040u},{-62,6466302802713488u},{-62,7534047204918455u},{-62,8601791607123422u},{-62,9040856645902146u},{-62,10108601048107113u},{-62,15068094409836910u},{-62,16135838812041877u},{-62,17203583214246844u},{-62,18081713291804292u},{-62,20217202096214226u},{-62,25176695457944023u},{-62,32271677624083754u},{-62,45393897554158249u},{-62,50353390915888046u},{-62,64543355248167508u},{-62,69502848609897305u},{-62,90787795108316498u},{-62,95747288470046295u},{-62,100706781831776092u},{-62,134046203858064813u},{-62,139005697219794610u},{-62,158155154913803869u},{-62,191494576940092590u},{-62,234752985689840905u},{-62,278011394439589220u},{-62,316310309827607738u},{-62,349649731853896459u},{-62,436166549353393089u},{-62,469505971379681810u},{-62,819155703233578269u},{-62,939011942759363620u},{-62,1005690786811941062u},{-62,1058868182285148971u},{-62,1112045577758356880u},{-62,1212063843837223043u},{-62,1451776322888793745u},{-62,1878023885518727240u},{-62,2117736364570297942u},{-62,2903552645777587490u},{-62,3569512687459091687u},{-62,4235472729140595884u},{-62,7139025374918183374u},{-62,7804985416599687571u},{-62,8470945458281191768u},{-62,9243260290909111783u},{-62,9403620876173005733u},{-62,9696510750697784344u},{-62,9989400625222562955u},
{-61,104763340827393u},{-61,104783204519770u},{-61,139704318128901u},{-61,189594460955142u},{-61,199580434997341u},{-61,229518493431561u},{-61,279408636257802u},{-61,329298779084043u},{-61,508927129689363u},{-61,558817272515604u},{-61,608707415341845u},{-61,918073973726244u},{-61,928020220383689u},{-61,1117634545031208u},{-61,1506809440983691u},{-61,2235269090062416u},{-61,3013618881967382u},{-61,4181143569824831u},{-61,4470538180124832u},{-61,6027237763934764u},{-61,7094982166139731u},{-61,8362287139649662u},{-61,8941076360249664u},{-61,10208381333759595u},{-61,10787170554359597u},{-61,12054475527869528u},{-61,13900569721979461u},{-61,15457269305789393u},{-61,19149457694009259u},{-61,27801139443958922u},{-61,29647233638068855u},{-61,38298915388018518u},{-61,46950597137968181u},{-61,55602278887917844u},{-61,59294467276137710u},{-61,76597830776037036u},{-61,93901194275936362u},{-61,108669947828815826u},{-61,109937252802325757u},{-61,111204557775835688u},{-61,137159603025684677u},{-61,153195661552074072u},{-61,187802388551872724u},{-61,222409115551671376u},{-61,290355264577758749u},{-61,375604777103745448u},{-61,580710529155517498u},{-61,751209554207490896u},{-61,900603300839035175u},{-61,1161421058311034996u},{-61,1502419108414981792u},{-61,1997880125044512591u},{-61,2322842116622069992u},{-61,3329800208407520985u},{-61,3995760250089025182u},{-61,5652642325029590977u},{-61,6659600416815041970u},{-61,7634486391547714173u},{-61,7991520500178050364u},{-61,9648402575118616159u},
{-60,121741483068369u},{-60,169642376563121u},{-60,243482966136738u},{-60,339284753126242u},{-60,341274002457731u},{-60,389174895952483u},{-60,486965932273476u},{-60,778349791904966u},{-60,872162329562981u},{-60,973931864546952u},{-60,1067744402204967u},{-60,1263326474846953u},{-60,2041676266751919u},{-60,2526652949693906u},{-60,4083352533503838u},{-60,4568329216445825u},{-60,5929446727613771u},{-60,6899400093497745u},{-60,8166705067007676u},{-60,9136658432891650u},{-60,10106611798775624u},{-60,10403963406401581u},{-60,11076565164659598u},{-60,11858893455227542u},{-60,15066105160505421u},{-60,23717786910455084u},{-60,26924998615732963u},{-60,47435573820910168u},{-60,91663935936542457u},{-60,94871147641820336u},{-60,98078359347098215u},{-60,659545618270948439u},{-60,665960041681504197u},{-60,672374465092059955u},{-60,974885974732672203u},{-60,987714821553783719u},{-60,1000543668374895235u},{-60,1319091236541896878u},{-60,1331920083363008394u},{-60,1344748930184119910u},{-60,1669710921761677311u},{-60,2001087336749790470u},{-60,2332463751737903629u},{-60,5327680333452033576u},{-60,6321809578416373053u},{-60,7647315238368825689u},{-60,8972820898321278325u},
{-59,114564294521107u},{-59,118542793184085u},{-59,137305300715688u},{-59,154078558915802u},{-59,172841066447405u},{-59,876140828225959u},{-59,913665843289165u},{-59,951190858352371u},{-59,1026240888478783u},{-59,1063765903541989u},{-59,1101290918605195u},{-59,1379880018699549u},{-59,1827331686578330u},{-59,2759760037399098u},{-59,3132161675151467u},{-59,3654663373156660u},{-59,5519520074798196u},{-59,5891921712550565u},{-59,7309326746313320u},{-59,9321434995327989u},{-59,9549433598586916u},{-59,9693836633080358u},{-59,9921835236339285u},{-59,11411441787348761u},{-59,14618653492626640u},{-59,14991055130379009u},{-59,17825865197904519u},{-59,19615671869419643u},{-59,22822883574697522u},{-59,26030095279975401u},{-59,36024132033561407u},{-59,39231343738839286u},{-59,42438555444117165u},{-59,72048264067122814u},{-59,78462687477678572u},{-59,84877110888234330u},{-59,121646046197300475u},{-59,128060469607856233u},{-59,134474893018411991u},{-59,140889316428967749u},{-59,144096528134245628u},{-59,200108733674979047u},{-59,256120939215712466u},{-59,268949786036823982u},{-59,344205261809224675u},{-59,400217467349958094u},{-59,456229672890691513u},{-59,537899572073647964u},{-59,606740624435492899u},{-59,800434934699916188u},{-59,994129244964339477u},{-59,1075799144147295928u},{-59,1407175559135409087u},{-59,1600869869399832376u},{-59,1794564179664255665u},{-59,1988258489928678954u},{-59,3201739738799664752u},{-59,3395434049064088041u},{-59,3589128359328511330u},{-59,3782822669592934619u},{-59,4720939709016540677u},{-59,6790868098128176082u},{-59,7178256718657022660u},{-59,9187476083971637291u},{-59,9441879418033081354u},{-59,9696282752094525417u},{-59,9962253325029330447u},
{-58,101769534983971u},{-58,106661441642168u},{-58,138272853157924u},{-58,145208153594627u},{-58,182733168657833u},{-58,220258183721039u},{-58,245955991689345u},{-58,321006021815757u},{-58,365466337315666u},{-58,409926652815575u},{-58,686472359131423u},{-58,730932674631332u},{-58,775392990131241u},{-58,911622449510659u},{-58,983823966757380u},{-58,1178384342510113u},{-58,1461865349262664u},{-58,1745346356015215u},{-58,2356768685020226u},{-58,2923730698525328u},{-58,3490692712030430u},{-58,3774173718782981u},{-58,4713537370040452u},{-58,5847461397050656u},{-58,7548347437565962u},{-58,8487711088823433u},{-58,9427074740080904u},{-58,10755559142843841u},{-58,11694922794101312u},{-58,12634286445358783u},{-58,16975422177646866u},{-58,17914785828904337u},{-58,24329209239460095u},{-58,33950844355293732u},{-58,34890208006551203u},{-58,47719054827662719u},{-58,48658418478920190u},{-58,68841052361844935u},{-58,96377473306582909u},{-58,97316836957840380u},{-58,137682104723689870u},{-58,166157889319685315u},{-58,192754946613165818u},{-58,221230731209161263u},{-58,248767152153899237u},{-58,275364209447379740u},{-58,358912835932851133u},{-58,497534304307798474u},{-58,524131361601278977u},{-58,717825671865702266u},{-58,911519982130125555u},{-58,941874494028635942u},{-58,968471551322116445u},{-58,995068608615596948u},{-58,1021665665909077451u},{-58,1435651343731404532u},{-58,2043331331818154902u},{-58,2457317009640481983u},{-58,2871302687462809064u},{-58,4500648341458636885u},{-58,4914634019280963966u},{-58,5328619697103291047u},{-58,6984562408392599371u},{-58,9001296682917273770u},{-58,9829268038561927932u},
{-57,119510345626321u},{-57,163970661126230u},{-57,196764793351476u},{-57,217892742302059u},{-57,327941322252460u},{-57,349069271203043u},{-57,435785484604118u},{-57,545834064554519u},{-57,698138542406086u},{-57,871570969208236u},{-57,981619549158637u},{-57,1091668129109038u},{-57,1286228504861771u},{-57,1396277084812172u},{-57,1963239098317274u},{-57,2073287678267675u},{-57,2792554169624344u},{-57,3207211705277879u},{-57,4865841847892019u},{-57,6414423410555758u},{-57,7353787061813229u},{-57,8792320044526567u},{-57,9731683695784038u},{-57,10230853027239905u},{-57,10671047347041509u},{-57,11170216678497376u},{-57,13768210472368987u},{-57,19463367391568076u},{-57,27536420944737974u},{-57,33231577863937063u},{-57,38926734783136152u},{-57,44621891702335241u},{-57,55072841889475948u},{-57,66463155727874126u},{-57,77853469566272304u},{-57,94879965312215308u},{-57,94997915335523834u},{-57,98696394928899455u},{-57,98814344952207981u},{-57,110145683778951896u},{-57,132926311455748252u},{-57,182303996426025111u},{-57,193694310264423289u},{-57,220291367557903792u},{-57,292449680204977007u},{-57,364607992852050222u},{-57,584899360409954014u},{-57,657057673057027229u},{-57,729215985704100444u},{-57,755813042997580947u},{-57,774777241057693156u},{-57,881165470231615168u},{-57,900129668291727377u},{-57,1044446293585873807u},{-57,1169798720819908028u},{-57,1314115346114054458u},{-57,1458431971408200888u},{-57,1800259336583454754u},{-57,2628230692228108916u},{-57,3600518673166909508u},{-57,3870187725695090159u},{-57,5256461384456217832u},{-57,7201037346333819016u},{-57,7470706398861999667u},{-57,7740375451390180318u},
{-56,104059456081290u},{-56,117617992491137u},{-56,131176528900984u},{-56,152304477851567u},{-56,179421550671261u},{-56,235235984982274u},{-56,262353057801968u},{-56,414657535653535u},{-56,773500636996057u},{-56,829315071307070u},{-56,885129505618083u},{-56,1049412231207872u},{-56,1105226665518885u},{-56,1658630142614140u},{-56,2046170605447981u},{-56,2377896633970809u},{-56,3704800748062121u},{-56,7022061033290401u},{-56,7409601496124242u},{-56,9452611524228973u},{-56,9511586535883236u},{-56,9570561547537499u},{-56,11777854301232019u},{-56,14044122066580802u},{-56,14819202992248484u},{-56,17085470757597267u},{-56,17860551683264949u},{-56,25821976367812821u},{-56,31904673749845751u},{-56,49377684970276859u},{-56,63809347499691502u},{-56,74424580412421998u},{-56,84323707411139075u},{-56,88856242941836641u},{-56,98755369940553718u},{-56,113187032469968361u},{-56,127618694999383004u},{-56,142050357528797647u},{-56,356259027704668509u},{-56,413985677822327081u},{-56,471712327939985653u},{-56,712518055409337018u},{-56,827971355644654162u},{-56,943424655879971306u},{-56,1058877956115288450u},{-56,1097640408172834813u},{-56,1174331256350605594u},{-56,1386273658761127673u},{-56,2156518364288123263u},{-56,4313036728576246526u},{-56,6585008393099686933u},
{-55,165863014261414u},{-55,221045333103777u},{-55,276543709680465u},{-55,331726028522828u},{-55,386908347365191u},{-55,442090666207554u},{-55,553087419360930u},{-55,663452057045656u},{-55,773816694730382u},{-55,939363651257471u},{-55,993281739162534u},{-55,998338662911734u},{-55,1106174838721860u},{-55,1326904114091312u},{-55,1714444576925153u},{-55,2045538489979331u},{-55,2653808228182624u},{-55,3262077966385917u},{-55,4257888167423051u},{-55,5474427643829637u},{-55,6690967120236223u},{-55,8348965147381713u},{-55,8515776334846102u},{-55,10782044100194885u},{-55,13215123053008057u},{-55,16864741482227815u},{-55,21730899387854159u},{-55,26430246106016114u},{-55,33729482964455630u},{-55,43294987588243929u},{-55,53027303399496617u},{-55,67458965928911260u},{-55,86589975176487858u},{-55,105554173236600067u},{-55,105720984424064456u},{-55,105887795611528845u},{-55,106054606798993234u},{-55,106221417986457623u},{-55,134751120670358131u},{-55,173346761540440105u},{-55,211775591223057690u},{-55,269502241340716262u},{-55,385122352763497795u},{-55,423551182446115380u},{-55,654624594104214057u},{-55,770244705526995590u},{-55,961721609190225959u},{-55,963056098689941071u},{-55,1116771417420411411u},{-55,1309249188208428114u},{-55,1732967181842007883u},{-55,2233542834840822822u},{-55,2426020605628839525u},{-55,3658412134472032469u},{-55,4467085669681645644u},{-55,4852041211257679050u},{-55,5891954969312855291u},{-55,6276910510888888697u},{-55,8934171339363291288u},{-55,9704082422515358100u},
{-54,110617483872186u},{-54,165546956527089u},{-54,166052648902009u},{-54,221234967744372u},{-54,276164440399275u},{-54,332105297804018u},{-54,442469935488744u},{-54,497399408143647u},{-54,719140068262939u},{-54,775080925667682u},{-54,827987628822905u},{-54,884939870977488u},{-54,994798816287294u},{-54,1161610003751683u},{-54,1271468949061489u},{-54,1438280136525878u},{-54,2156408820038977u},{-54,2709749085587367u},{-54,3372948296445563u},{-54,4312817640077954u},{-54,5252686983710345u},{-54,6745896592891126u},{-54,8625635280155908u},{-54,8792446467620297u},{-54,10338562779956301u},{-54,10505373967420690u},{-54,10672185154885079u},{-54,10838996342349468u},{-54,13491793185782252u},{-54,21177559122305769u},{-54,26983586371564504u},{-54,34669352308088021u},{-54,42355118244611538u},{-54,53967172743129008u},{-54,61652938679652525u},{-54,69338704616176042u},{-54,84710236489223076u},{-54,92396002425746593u},{-54,99247712424948165u},{-54,99914957174805721u},{-54,138677409232352084u},{-54,154048941105399118u},{-54,169420472978446152u},{-54,184792004851493186u},{-54,308097882210798236u},{-54,338840945956892304u},{-54,485204121125767905u},{-54,616195764421596472u},{-54,839416598955707243u},{-54,847435987267159538u},{-54,970408242251535810u},{-54,1101399885547364377u},{-54,1232391528843192944u},{-54,1486355427123397783u},{-54,1940816484503071620u},{-54,2071808127798900187u},{-54,3881632969006143240u},{-54,4143616255597800374u},{-54,5306502268637352887u},{-54,6600379924972733967u},{-54,7763265938012286480u},{-54,8287232511195600748u},{-54,9450118524235153261u},
{-53,110061222259774u},{-53,110465776159710u},{-53,110870330059646u},{-53,165597525764581u},{-53,220931552319420u},{-53,276265578874259u},{-53,387338185883873u},{-53,607865184303357u},{-53,774676371767746u},{-53,829201290522713u},{-53,1050537396742069u},{-53,1105062315497036u},{-53,1382541556071103u},{-53,2101074793484138u},{-53,3483616349555241u},{-53,4202149586968276u},{-53,5363355036820023u},{-53,6967232699110482u},{-53,9456454786278365u},{-53,9790077161207143u},{-53,10726710073640046u},{-53,12330587735930505u},{-53,13934465398220964u},{-53,18412476010163563u},{-53,23057297809570551u},{-53,24661175471861010u},{-53,47718473281431561u},{-53,49322350943722020u},{-53,92229191238282204u},{-53,93833068900572663u},{-53,95436946562863122u},{-53,98644701887444040u},{-53,194081648450307162u},{-53,388163296900614324u},{-53,519154940196442891u},{-53,648542705829980999u},{-53,776326593801228648u},{-53,904110481772476297u},{-53,1031894369743723946u},{-53,1038309880392885782u},{-53,1159678257714971595u},{-53,1166093768364133431u},{-53,1424869299631209647u},{-53,1552653187602457296u},{-53,3105306375204914592u},{-53,4012624612301971807u},{-53,8025249224603943614u},{-53,8932567461701000829u},{-53,9699270789528486723u},{-53,9814223656201410700u},{-53,9929176522874334677u},
{-52,101543106518403u},{-52,109858945309806u},{-52,111477160909550u},{-52,176745241855536u},{-52,188297511846427u},{-52,353490483711072u},{-52,365042753701963u},{-52,586378859921319u},{-52,730085507403926u},{-52,873792154886533u},{-52,959737452414685u},{-52,977762584804552u},{-52,987921399988382u},{-52,1005946532378249u},{-52,1460171014807852u},{-52,1747584309773066u},{-52,1891290957255673u},{-52,2466117547186101u},{-52,3040944137116529u},{-52,3615770727046957u},{-52,3782581914511346u},{-52,4932235094372202u},{-52,6081888274233058u},{-52,6536112756662661u},{-52,7565163829022692u},{-52,8260592526453945u},{-52,9864470188744404u},{-52,11468347851034863u},{-52,18125062715198349u},{-52,19728940377488808u},{-52,21332818039779267u},{-52,37854003092687157u},{-52,39457880754977616u},{-52,41061758417268075u},{-52,75708006185374314u},{-52,78915761509955232u},{-52,102547885909456211u},{-52,105755641234037129u},{-52,130991643295828567u},{-52,205095771818912422u},{-52,231935651542994319u},{-52,336087415114740989u},{-52,389767174562904783u},{-52,463871303085988638u},{-52,490711182810070535u},{-52,672174830229481978u},{-52,853638477648893421u},{-52,966235670066948292u},{-52,981422365620141070u},{-52,1162886013039552513u},{-52,1344349660458963956u},{-52,1525813307878375399u},
{-51,108033955991551u},{-51,179379338973663u},{-51,932569386359371u},{-51,980810229359701u},{-51,1029051072360031u},{-51,1077291915360361u},{-51,1125532758360691u},{-51,1173773601361021u},{-51,1652118505290789u},{-51,2154583830720722u},{-51,2753530842151315u},{-51,3304237010581578u},{-51,4908114672872037u},{-51,5507061684302630u},{-51,6608474021163156u},{-51,8212351683453615u},{-51,9410245706314801u},{-51,9816229345744074u},{-51,11014123368605260u},{-51,11420107008034533u},{-51,16424703366907230u},{-51,19226475052058875u},{-51,22434230376639793u},{-51,32849406733814460u},{-51,35651178418966105u},{-51,47670232438431231u},{-51,56481531133315439u},{-51,71302356837932210u},{-51,97776366713438100u},{-51,98142236562014107u},{-51,98508106410590114u},{-51,112963062266630878u},{-51,127783887971247649u},{-51,196284473124028214u},{-51,348106469134206115u},{-51,377748120543439657u},{-51,392568946248056428u},{-51,574032593667467871u},{-51,755496241086879314u},{-51,785137892496112856u},{-51,848034934278590131u},{-51,966601539915524299u},{-51,1148065187334935742u},{-51,1329528834754347185u},{-51,1510992482173758628u},{-51,6225433576114445955u},{-51,6951288165792091727u},{-51,7677142755469737499u},{-51,9128851934825029043u},{-51,9854706524502674815u},
{-50,512113494029999u},{-50,531409831230131u},{-50,550706168430263u},{-50,570002505630395u},{-50,618243348630725u},{-50,1024226988059998u},{-50,1062819662460262u},{-50,1101412336860526u},{-50,1140005011260790u},{-50,1178597685661054u},{-50,1642470336690723u},{-50,2202824673721052u},{-50,2724586336351117u},{-50,3284940673381446u},{-50,3845295010411775u},{-50,4405649347442104u},{-50,5449172672702234u},{-50,6009527009732563u},{-50,6569881346762892u},{-50,7130235683793221u},{-50,7690590020823550u},{-50,8250944357853879u},{-50,9777636671343810u},{-50,9891893578091600u},{-50,13139762693525784u},{-50,14260471367586442u},{-50,15381180041647100u},{-50,26279525387051568u},{-50,28520942735172884u},{-50,57041885470345768u},{-50,69621293826841223u},{-50,79959284835215362u},{-50,88924954227700626u},{-50,92538693191710817u},{-50,114083770940691536u},{-50,126663179297186991u},{-50,139242587653682446u},{-50,151821996010177901u},{-50,253326358594373982u},{-50,265905766950869437u},{-50,278485175307364892u},{-50,350347886482327431u},{-50,531811533901738874u},{-50,700695772964654862u},{-50,907318237097057215u},{-50,1013305434377495928u},{-50,1063623067803477748u},{-50,1113940701229459568u},{-50,1219927898509898281u},{-50,1245086715222889191u},{-50,1970941304900534963u},{-50,2490173430445778382u},{-50,3941882609801069926u},{-50,7883765219602139852u},{-50,8040070050308560385u},{-50,9913577759215900618u},{-50,9937135740499507073u},{-50,9960693721783113528u},{-50,9984251703066719983u},
{-49,102574810451300u},{-49,106129854600726u},{-49,114000501126079u},{-49,123648669726145u},{-49,162241344126409u},{-49,189408327851894u},{-49,228001002252158u},{-49,247297339452290u},{-49,313056997578039u},{-49,378816655703788u},{-49,456002004504316u},{-49,494594678904580u},{-49,626113995156078u},{-49,769059002082355u},{-49,912004009008632u},{-49,966337976459602u},{-49,977763667134381u},{-49,989189357809160u},{-49,1263653680986935u},{-49,1538118004164710u},{-49,1812582327342485u},{-49,1955527334268762u},{-49,3076236008329420u},{-49,3350700331507195u},{-49,3911054668537524u},{-49,6152472016658840u},{-49,6426936339836615u},{-49,7822109337075048u},{-49,9789062362018589u},{-49,12304944033317680u},{-49,14820825704616771u},{-49,22094006395336269u},{-49,24609888066635360u},{-49,27125769737934451u},{-49,161336594049018715u},{-49,171400120734215079u},{-49,181463647419411443u},{-49,191527174104607807u},{-49,201590700789804171u},{-49,342800241468430158u},{-49,362927294838822886u},{-49,529295652230439783u},{-49,725854589677645772u},{-49,882159420384066305u},{-49,987506283492751236u},{-49,992217879749472527u},{-49,996929476006193818u},{-49,1058591304460879566u},{-49,1451709179355291544u},{-49,1608014010061712077u},{-49,1764318840768132610u},{-49,3059723189417003621u},{-49,3216028020123424154u},{-49,5176905798338762753u},{-49,6432056040246848308u},{-49,7687206282154933863u},{-49,8473442031943757819u},{-49,9098661354769439951u},{-49,9728592273851843374u},
{-48,153811800416471u},{-48,197837871561832u},{-48,252730736197387u},{-48,307623600832942u},{-48,362516465468497u},{-48,395675743123664u},{-48,450568607759219u},{-48,505461472394774u},{-48,670140066301439u},{-48,725032930936994u},{-48,791351486247328u},{-48,846244350882883u},{-48,901137215518438u},{-48,1010922944789548u},{-48,1065815809425103u},{-48,1120708674060658u},{-48,1285387267967323u},{-48,1340280132602878u},{-48,1395172997238433u},{-48,2351203077392426u},{-48,2460988806663536u},{-48,2570774535934646u},{-48,2680560265205756u},{-48,4921977613327072u},{-48,5141549071869292u},{-48,7328073555355053u},{-48,7767216472439493u},{-48,9843955226654144u},{-48,10283098143738584u},{-48,12579408356495455u},{-48,17611171699093637u},{-48,19687910453308288u},{-48,32267318809803743u},{-48,42330845495000107u},{-48,64534637619607486u},{-48,84661690990000214u},{-48,91770193086813047u},{-48,121960773142402139u},{-48,129069275239214972u},{-48,176431884076813261u},{-48,305501159316028233u},{-48,352863768153626522u},{-48,454697487925635933u},{-48,549422705600832511u},{-48,705727536307253044u},{-48,847815362820047911u},{-48,909394975851271866u},{-48,970974588882495821u},{-48,1411455072614506088u},{-48,3263390628961022443u},{-48,3765450725724256665u},{-48,4267510822487490887u},{-48,6526781257922044886u},{-48,7530901451448513330u},{-48,8535021644974981774u},
{-47,2296310212756871u},{-47,2384138796173759u},{-47,2515881671299091u},{-47,5031763342598182u},{-47,7284159263646609u},{-47,7635473597314161u},{-47,9899095838272778u},{-47,9938937694033720u},{-47,9981311261734571u},{-47,10063526685196364u},{-47,27235555467205561u},{-47,32442975976637519u},{-47,42155188328166331u},{-47,77201874559519829u},{-47,84310376656332662u},{-47,96626299262577453u},{-47,154403749119039658u},{-47,489744174156989431u},{-47,514376019369479013u},{-47,753090145144851333u},{-47,979488348313978862u},{-47,1028752038738958026u},{-47,1078015729163937190u},{-47,1205886551483106391u},{-47,1255150241908085555u},{-47,1279782087120575137u},{-47,1506180290289702666u},{-47,2283902280647043581u},{-47,2510300483816171110u},{-47,3012360580579405332u},{-47,3790082570936746247u},{-47,5020600967632342220u},{-47,6024721161158810664u},{-47,6802443151516151579u},
{-46,105751994298400u},{-46,113819464243820u},{-46,120764302198221u},{-46,153700020979554u},{-46,197614312687998u},{-46,226516296496621u},{-46,241528604396442u},{-46,248473442350843u},{-46,307400041959108u},{-46,336302025767731u},{-46,424130609184619u},{-46,643702067726839u},{-46,848261218369238u},{-46,989403241439296u},{-46,993893769403372u},{-46,998384297367448u},{-46,1287404135453678u},{-46,1316306119262301u},{-46,1667620452929853u},{-46,1696522436738476u},{-46,2252395921048427u},{-46,3715457223335881u},{-46,8249151049241358u},{-46,8629367366717533u},{-46,9009583684193708u},{-46,23491196260061057u},{-46,24251628895013407u},{-46,36187335183782023u},{-46,46982392520122114u},{-46,48503257790026814u},{-46,59298315126366905u},{-46,72374670367564046u},{-46,83169727703904137u},{-46,107801572916393719u},{-46,118596630252733810u},{-46,130912552858978601u},{-46,180176243283957765u},{-46,215603145832787438u},{-46,251030048381617111u},{-46,275661893594106693u},{-46,346515698691766039u},{-46,431206291665574876u},{-46,502060096763234222u},{-46,537486999312063895u},{-46,693031397383532078u},{-46,848575795455000261u},{-46,1000780462092644662u},{-46,1004120193526468444u},{-46,1007459924960292226u},{-46,1074973998624127790u},{-46,1230518396695595973u},{-46,1386062794767064156u},{-46,3238758783748532861u},{-46,3394303181820001044u},{-46,3549847579891469227u},{-46,7721872752068811186u},{-46,8032961548211747552u},{-46,8499594742426152101u},{-46,9121772334712024833u},{-46,9743949926997897565u},
{-45,140301207068817u},{-45,163871846912123u},{-45,251700430329011u},{-45,327743693824246u},{-45,731530651143727u},{-45,854715194325574u},{-45,930758457820809u},{-45,10642970809349621u},{-45,10947143863330561u},{-45,11251316917311501u},{-45,12163836079254321u},{-45,12468009133235261u},{-45,23110979942584882u},{-45,23719326050546762u},{-45,24327672158508642u},{-45,36035248656791553u},{-45,47438652101093524u},{-45,72070497313583106u},{-45,83473900757885077u},{-45,94877304202187048u},{-45,100507591780817717u},{-45,100650420067858350u},{-45,107497399862412779u},{-45,144140994627166212u},{-45,166947801515770154u},{-45,214994799724825558u},{-45,251638394489578991u},{-45,370539197796293741u},{-45,429989599449651116u},{-45,585533997521119299u},{-45,741078395592587482u},{-45,859979198899302232u},{-45,942236407441263549u},{-45,1171067995042238598u},{-45,1482156791185174964u},{-45,1948789985399579513u},{-45,2570967577685452245u},{-45,2964313582370349928u},{-45,3897579970799159026u},{-45,5535281160055802173u},{-45,6944150761711470271u},{-45,7795159941598318052u},{-45,9432861130854961199u},
{-44,653972066059021u},{-44,684389371457115u},{-44,714806676855209u},{-44,1018979730836149u},{-44,1049397036234243u},{-44,1079814341632337u},{-44,10031538621404462u},{-44,10065042006785835u},{-44,11646741887486723u},{-44,12133418773856227u},{-44,23293483774973446u},{-44,24266837547712454u},{-44,36156917878383929u},{-44,59450401653357375u},{-44,72313835756767858u},{-44,84203916087439333u},{-44,93173935099893784u},{-44,97067350190849816u},{-44,118900803306714750u},{-44,131764237410125233u},{-44,144627671513535716u},{-44,250665040716839983u},{-44,263528474820250466u},{-44,514193515537090449u},{-44,1015523596970770415u},{-44,1028387031074180898u},{-44,1041250465177591381u},{-44,2043910628044951313u},{-44,2056774062148361796u},{-44,4100684690193313109u},{-44,6563668191129983071u},{-44,8201369380386626218u},{-44,9839070569643269365u},
{-43,101589365085287u},{-43,111331772701371u},{-43,116798017784334u},{-43,136877874291423u},{-43,167295179689517u},{-43,197712485087611u},{-43,273755748582846u},{-43,334590359379034u},{-43,395424970175222u},{-43,547511497165692u},{-43,669180718758068u},{-43,790849940350444u},{-43,1000684998153823u},{-43,1001390913037418u},{-43,1526331514987663u},{-43,1769669958172415u},{-43,2013008401357167u},{-43,2134677622949543u},{-43,2621354509319047u},{-43,3108031395688551u},{-43,4026016802714334u},{-43,4269355245899086u},{-43,5242709018638094u},{-43,6647371312033381u},{-43,7620725084772389u},{-43,8538710491798172u},{-43,9080755743880901u},{-43,9943372785193459u},{-43,10485418037276188u},{-43,11890080330671475u},{-43,15241450169544778u},{-43,17619466235679073u},{-43,23780160661342950u},{-43,27131530500216253u},{-43,41399626897022023u},{-43,47560321322685900u},{-43,60423755426096383u},{-43,69935819690633563u},{-43,82257208541961317u},{-43,82799253794044046u},{-43,95120642645371800u},{-43,107984076748782283u},{-43,120305465600110037u},{-43,120847510852192766u},{-43,203104719394154083u},{-43,215968153497564566u},{-43,406209438788308166u},{-43,419072872891718649u},{-43,812418877576616332u},{-43,825282311680026815u},{-43,1001034027111111745u},{-43,1005370389127773577u},{-43,1013897461214522228u},{-43,1018233823231184060u},{-43,1026760895317932711u},{-43,1031097257334594543u},{-43,1307588264584632421u},{-43,1624837755153232664u},{-43,1650564623360053630u},{-43,1967814113928653873u},{-43,2615176529169264842u},{-43,2958152887944686051u},{-43,3592651869081886537u},{-43,3935628227857307746u},{-43,5573329417113950893u},{-43,7528280096939194283u},{-43,7871256455714615492u},{-43,8848731795627237187u},{-43,9534684513178079605u},
{-42,100913759569737u},{-42,160356486103274u},{-42,171430159245919u},{-42,182503832388564u},{-42,193577505531209u},{-42,342860318491838u},{-42,353933991634483u},{-42,365007664777128u},{-42,696794310126321u},{-42,707867983268966u},{-42,718941656411611u},{-42,730015329554256u},{-42,895838060740493u},{-42,917985407025783u},{-42,940132753311073u},{-42,962280099596363u},{-42,984427445881653u},{-42,1415735966537932u},{-42,1437883312823222u},{-42,2378016066134295u},{-42,4756032132268590u},{-42,7156195544688175u},{-42,8063107278571313u},{-42,9512064264537180u},{-42,10961021250503047u},{-42,11867932984386185u},{-42,19024128529074360u},{-42,35692388338299715u},{-42,38048257058148720u},{-42,50911691161559203u},{-42,58521342573188947u},{-42,76096514116297440u},{-42,88959948219707923u},{-42,100551604107434859u},{-42,101823382323118406u},{-42,103095160538801953u},{-42,104179251042967411u},{-42,165056462336005363u},{-42,208358502085934822u},{-42,256372279275562291u},{-42,330112924672010726u},{-42,403853570068459161u},{-42,464730781361497113u},{-42,660225849344021452u},{-42,833434008343739288u},{-42,881447785533366757u},{-42,929461562722994226u},{-42,977475339912621695u},{-42,1320451698688042904u},{-42,1368465475877670373u},{-42,1906936902635615921u},{-42,2688917174565713277u},{-42,3813873805271231842u},{-42,3861887582460859311u},{-42,5377834349131426554u},{-42,7627747610542463684u},{-42,7675761387732091153u},{-42,7723775164921718622u},
{-41,466744274712743u},{-41,475603213226859u},{-41,484462151740975u},{-41,933488549425486u},{-41,951206426453718u},{-41,968924303481950u},{-41,1431239108937635u},{-41,1902412852907436u},{-41,2373586596877237u},{-41,2862478217875270u},{-41,3333651961845071u},{-41,3804825705814872u},{-41,4275999449784673u},{-41,4747173193754474u},{-41,6196130179720341u},{-41,6667303923690142u},{-41,7138477667659943u},{-41,7609651411629744u},{-41,8080825155599545u},{-41,8551998899569346u},{-41,10107263147704605u},{-41,10294950859222694u},{-41,14276955335319886u},{-41,15219302823259488u},{-41,16161650311199090u},{-41,28553910670639772u},{-41,30438605646518976u},{-41,46129082213748265u},{-41,60877211293037952u},{-41,75625340372327639u},{-41,84719384523979714u},{-41,92258164427496530u},{-41,95698123651510993u},{-41,99796944331013346u},{-41,103236903555027809u},{-41,121754422586075904u},{-41,132733161713607183u},{-41,151250680744655278u},{-41,162229419872186557u},{-41,195495067982524339u},{-41,254487584299683087u},{-41,390990135965048678u},{-41,556988945788993643u},{-41,733966494740469887u},{-41,781980271930097356u},{-41,1065964114388359817u},{-41,1113977891577987286u},{-41,1515946766670567243u},{-41,2131928228776719634u},{-41,3079907310530761955u},{-41,4311870234743066737u},{-41,6159814621061523910u},{-41,8623740469486133474u},
{-40,105751368862311u},{-40,114610307376427u},{-40,123469245890543u},{-40,176066983668158u},{-40,193784860696390u},{-40,211502737724622u},{-40,286247821787527u},{-40,387569721392780u},{-40,453455866941569u},{-40,488891620998033u},{-40,572495643575054u},{-40,775139442785560u},{-40,841025588334349u},{-40,1028713299852438u},{-40,1033698662416577u},{-40,1144991287150108u},{-40,1616165031119909u},{-40,2021452629540921u},{-40,2289982574300216u},{-40,2355868719849005u},{-40,3232330062239818u},{-40,4108791404630631u},{-40,4579965148600432u},{-40,4645851294149221u},{-40,6464660124479636u},{-40,9028158006103286u},{-40,9094044151652075u},{-40,9159930297200864u},{-40,9225816442749653u},{-40,9291702588298442u},{-40,9357588733847231u},{-40,12863434103410483u},{-40,12929320248959272u},{-40,18451632885499306u},{-40,22155136691708925u},{-40,25858640497918544u},{-40,36903265770998612u},{-40,44310273383417850u},{-40,55289012510949129u},{-40,62696020123368367u},{-40,73806531541997224u},{-40,77378263057109265u},{-40,88620546766835700u},{-40,92192278281947741u},{-40,107006293506786217u},{-40,110578025021898258u},{-40,121820308731624693u},{-40,125392040246736734u},{-40,165998809823944965u},{-40,184384556563895482u},{-40,232398333753522951u},{-40,250784080493473468u},{-40,283983842458262461u},{-40,331997619647889930u},{-40,416782890317418433u},{-40,464796667507045902u},{-40,615981462106152391u},{-40,833565780634836866u},{-40,881579557824464335u},{-40,1003136321973893872u},{-40,1025620889393346742u},{-40,1028665531744068471u},{-40,1051150099163521341u},{-40,1231962924212304782u},{-40,1449547242740989257u},{-40,1980743434177613145u},{-40,2246341529895925089u},{-40,2463925848424609564u},{-40,2681510166953294039u},{-40,3961486868355226290u},{-40,4179071186883910765u},{-40,4710267378320534653u},{-40,4927851696849219128u},{-40,5145436015377903603u},{-40,8140558055239137055u},{-40,8358142373767821530u},{-40,8767781801055015881u},{-40,8985366119583700356u},{-40,9202950438112384831u},
{-39,100769541738090u},{-39,101874257472416u},{-39,102978973206742u},{-39,155027888557112u},{-39,268529944759295u},{-39,310055777114224u},{-39,471173743969801u},{-39,620111554228448u},{-39,685997699777237u},{-39,876461342390813u},{-39,942347487939602u},{-39,1306109254005685u},{-39,1818808830330415u},{-39,1884694975879204u},{-39,2546332362462581u},{-39,2612218508011370u},{-39,4431027338341785u},{-39,5886074402606117u},{-39,8200417290100193u},{-39,8862054676683570u},{-39,9523692063266947u},{-39,11110511418628857u},{-39,11772148805212234u},{-39,15475652611421853u},{-39,17724109353367140u},{-39,25792754352369755u},{-39,30951305222843706u},{-39,33199761964788993u},{-39,35448218706734280u},{-39,64151067187632699u},{-39,66399523929577986u},{-39,68647980671523273u},{-39,100922560667533733u},{-39,103171017409479020u},{-39,105419474151424307u},{-39,132799047859155972u},{-39,176315911564892867u},{-39,222081232012575049u},{-39,265598095718311944u},{-39,309114959424048839u},{-39,618229918848097678u},{-39,661746782553834573u},{-39,705263646259571468u},{-39,835814237376782153u},{-39,888324928050300196u},{-39,931841791756037091u},{-39,975358655461773986u},{-39,1454044156224879831u},{-39,1497561019930616726u},{-39,1541077883636353621u},{-39,1671628474753564306u},{-39,3082155767272707242u},{-39,3125672630978444137u},{-39,3169189494684181032u},{-39,3343256949507128612u},{-39,3386773813212865507u},{-39,6425412716779835854u},{-39,6468929580485572749u},{-39,6512446444191309644u},{-39,6686513899014257224u},{-39,6730030762719994119u},{-39,6773547626425731014u},
{-38,107411977903718u},{-38,117156103181262u},{-38,144065747619875u},{-38,153809872897419u},{-38,163553998174963u},{-38,214823955807436u},{-38,261221850801137u},{-38,307619745794838u},{-38,363761766066083u},{-38,522443701602274u},{-38,727523532132166u},{-38,886205467668357u},{-38,1044887403204548u},{-38,1203569338740739u},{-38,1455047064264332u},{-38,1772410935336714u},{-38,2089774806409096u},{-38,3544821870673428u},{-38,5158550870473951u},{-38,7089643741346856u},{-38,10026647514314133u},{-38,10317101740947902u},{-38,11930830740748425u},{-38,14179287482693712u},{-38,20634203481895804u},{-38,28358574965387424u},{-38,37061947706534803u},{-38,86743273184840021u},{-38,87324181638107559u},{-38,95446645925987400u},{-38,96027554379254938u},
{-37,112284040542490u},{-37,115252598095900u},{-37,134740848650988u},{-37,182623022421394u},{-37,203595551753187u},{-37,251477725523593u},{-37,296391341740589u},{-37,365246044842788u},{-37,407191103506374u},{-37,476045806608573u},{-37,1005910902094372u},{-37,1020946316319345u},{-37,1035981730544318u},{-37,1476019593596125u},{-37,1613728999800523u},{-37,1751438406004921u},{-37,2386166148149685u},{-37,3227457999601046u},{-37,3793331038643611u},{-37,4068749851052407u},{-37,4772332296299370u},{-37,5613624147750731u},{-37,6454915999202092u},{-37,9254210365964971u},{-37,9544664592598740u},{-37,9835118819232509u},{-37,11227248295501462u},{-37,14882869927940675u},{-37,16565453630843397u},{-37,19089329185197480u},{-37,24427534520539415u},{-37,27792701926344859u},{-37,33130907261686794u},{-37,40151696299931451u},{-37,48855069041078830u},{-37,57558441782226209u},{-37,71600019858715523u},{-37,80303392599862902u},{-37,89006765341010281u},{-37,106413510823305039u},{-37,115116883564452418u},{-37,123820256305599797u},{-37,1000887865231948585u},{-37,1018294610714243343u},{-37,1035701356196538101u},{-37,5142070847972098159u},{-37,5281324811830456223u},{-37,5420578775688814287u},{-37,5559832739547172351u},{-37,9448617912794047934u},{-37,9727125840510764062u},
{-36,101701462647632u},{-36,102487800616237u},{-36,104862646658965u},{-36,135334560161670u},{-36,159869358557555u},{-36,204189263263869u},{-36,295203918719225u},{-36,408378526527738u},{-36,477233229629937u},{-36,590407837438450u},{-36,703582445246963u},{-36,816757053055476u},{-36,890361448243131u},{-36,954466459259874u},{-36,1180815674876900u},{-36,1569409095094209u},{-36,1908932918519748u},{-36,2523875554354083u},{-36,2976573985588135u},{-36,3817865837039496u},{-36,4885506904107883u},{-36,5953147971176270u},{-36,7473487469478709u},{-36,7635731674078992u},{-36,9771013808215766u},{-36,9933258012816049u},{-36,11906295942352540u},{-36,12068540146952823u},{-36,15271463348157984u},{-36,19542027616431532u},{-36,23974836089305363u},{-36,30380682491715685u},{-36,39084055232863064u},{-36,47787427974010443u},{-36,103953740279967699u},{-36,104278228689168265u},{-36,104602717098368831u},{-36,104927205507569397u},{-36,113143845634915927u},{-36,130550591117210685u},{-36,147957336599505443u},{-36,226287691269831854u},{-36,826495921999800439u},{-36,905150765079327416u},{-36,948992117194264877u},{-36,956722024707810558u},{-36,1000563376822748019u},{-36,1139817340681106083u},{-36,1279071304539464147u},{-36,2001126753645496038u},{-36,2279634681362212166u},{-36,3210571076255781153u},{-36,5490205757617993319u},{-36,6421142152511562306u},{-36,7073570619688415165u},
{-35,108267648129336u},{-35,118081567487690u},{-35,127895486846044u},{-35,137709406204398u},{-35,147523325562752u},{-35,236163134975380u},{-35,349337742783893u},{-35,472326269950760u},{-35,595314797117627u},{-35,698675485567786u},{-35,860919690168069u},{-35,944652539901520u},{-35,1190629594235254u},{-35,1559595175735855u},{-35,2381259188470508u},{-35,3940854364206363u},{-35,4762518376941016u},{-35,6076136498343137u},{-35,7881708728412726u},{-35,9525036753882032u},{-35,10011769367682881u},{-35,12152272996686274u},{-35,13957845226755863u},{-35,20855645737833653u},{-35,24304545993372548u},{-35,26110118223442137u},{-35,41711291475667306u},{-35,50414664216814685u},{-35,52220236446884274u},{-35,85228155181404201u},{-35,89995895053211836u},{-35,93607039513351014u},{-35,97218183973490192u},{-35,104440472893768548u},{-35,137448391628288475u},{-35,274896783256576950u},{-35,311515846451236055u},{-35,381142828380415087u},{-35,586412629707813005u},{-35,623031692902472110u},{-35,725666593566171069u},{-35,762285656760830174u},{-35,1136206196220966905u},{-35,1172825259415626010u},{-35,1209444322610285115u},{-35,1246063385804944220u},{-35,1414714123937683033u},{-35,1451333187132342138u},{-35,2382269582025911125u},{-35,2829428247875366066u},{-35,4764539164051822250u},{-35,5658856495750732132u},{-35,6663031017033619329u},{-35,8524903806820757303u},{-35,9529078328103644500u},
{-34,103360688450159u},{-34,140779396086881u},{-34,188930507980304u},{-34,237081619873727u},{-34,254872488793741u},{-34,311919035147171u},{-34,377861015960608u},{-34,443802996774045u},{-34,509744977587482u},{-34,623838070294342u},{-34,755722031921216u},{-34,887605993548090u},{-34,1019489955174964u},{-34,1049850198148373u},{-34,1080210441121782u},{-34,1247676140588684u},{-34,1511444063842432u},{-34,1937456191696463u},{-34,2495352281177368u},{-34,3448900255538895u},{-34,3874912383392926u},{-34,5944252536716263u},{-34,6897800511077790u},{-34,7749824766785852u},{-34,9981409124709472u},{-34,10082932843362937u},{-34,11888505073432526u},{-34,15601173252225169u},{-34,20165865686725874u},{-34,27489678325657695u},{-34,40331731373451748u},{-34,47655544012383569u},{-34,54979356651315390u},{-34,62303169290247211u},{-34,73339650107971675u},{-34,80663462746903496u},{-34,87987275385835317u},{-34,102634900663698959u},{-34,109958713302630780u},{-34,117282525941562601u},{-34,124606338580494422u},{-34,131930151219426243u},{-34,190622176049534276u},{-34,197945988688466097u},{-34,205269801327397918u},{-34,241888864522057023u},{-34,249212677160988844u},{-34,256536489799920665u},{-34,432511040571591299u},{-34,439834853210523120u},{-34,447158665849454941u},{-34,476453916405182225u},{-34,483777729044114046u},{-34,491101541683045867u},{-34,908964956976773524u},{-34,923612582254637166u},{-34,938260207532500808u},{-34,952907832810364450u},{-34,967555458088228092u},{-34,982203083366091734u},{-34,1011498333921819018u},{-34,1026145959199682660u},{-34,1040793584477546302u},{-34,1876520415065001616u},{-34,1905815665620728900u},{-34,1935110916176456184u},{-34,2807456809958570603u},{-34,2866047311070025171u},{-34,3811631331241457800u},{-34,4786510601968617713u},{-34,5732094622140050342u},{-34,6677678642311482971u},{-34,9338659199491417154u},{-34,9573021203937235426u},{-34,9807383208383053698u},
{-33,103843848218883u},{-33,104037593464144u},{-33,157216454978925u},{-33,177521198709618u},{-33,197825942440311u},{-33,314432909957850u},{-33,334737653688543u},{-33,355042397419236u},{-33,375347141149929u},{-33,669475307377086u},{-33,689780051107779u},{-33,710084794838472u},{-33,1359255358484865u},{-33,1379560102215558u},{-33,1399864845946251u},{-33,2718510716969730u},{-33,2738815460700423u},{-33,2759120204431116u},{-33,2779424948161809u},{-33,5477630921400846u},{-33,5497935665131539u},{-33,5518240408862232u},{-33,10934957099070999u},{-33,10955261842801692u},{-33,10975566586532385u},{-33,10995871330263078u},{-33,11016176073993771u},{-33,11036480817724464u},{-33,14627320534132949u},{-33,14667930021594335u},{-33,21991742660526156u},{-33,29335860043188670u},{-33,36659672682120491u},{-33,43983485321052312u},{-33,51307297959984133u},{-33,58671720086377340u},{-33,65995532725309161u},{-33,73319345364240982u},{-33,95290783281036445u},{-33,102614595919968266u},{-33,109938408558900087u},{-33,161286316006345606u},{-33,175933941284209248u},{-33,190581566562072890u},{-33,205229191839936532u},{-33,219876817117800174u},{-33,227200629756731995u},{-33,351867882568418496u},{-33,381163133124145780u},{-33,410458383679873064u},{-33,549773261769423207u},{-33,608363762880877775u},{-33,762326266248291560u},{-33,908802519026927980u},{-33,982365521315937278u},{-33,1312099528017714767u},{-33,1524652532496583120u},{-33,1737205536975451473u},{-33,2624199056035429534u},{-33,2836752060514297887u},{-33,3049305064993166240u},{-33,3261858069472034593u},{-33,5673504121028595774u},{-33,5886057125507464127u},{-33,6098610129986332480u},{-33,6311163134465200833u},{-33,7352119156892592679u},{-33,7777225165850329385u},{-33,8202331174808066091u},{-33,8627437183765802797u},
{-32,125773163983140u},{-32,146077907713833u},{-32,251546327966280u},{-32,271851071696973u},{-32,292155815427666u},{-32,523397399663253u},{-32,543702143393946u},{-32,564006887124639u},{-32,1046794799326506u},{-32,1067099543057199u},{-32,1087404286787892u},{-32,1107709030518585u},{-32,1128013774249278u},{-32,1148318517979971u},{-32,2174808573575784u},{-32,2195113317306477u},{-32,2215418061037170u},{-32,2933586004318867u},{-32,4390226634612954u},{-32,5867172008637734u},{-32,7283203151470435u},{-32,7364422126393207u},{-32,8780453269225908u},{-32,10115265437135837u},{-32,10196484412058609u},{-32,10277703386981381u},{-32,10358922361904153u},{-32,10440141336826925u},{-32,11734344017275468u},{-32,19058156656207289u},{-32,23468688034550936u},{-32,38116313312414578u},{-32,45440125951346399u},{-32,46937376069101872u},{-32,76232626624829156u},{-32,90880251902692798u},{-32,93874752138203744u},{-32,96869252373714690u},{-32,99863752609225636u},{-32,121672752576175555u},{-32,152465253249658312u},{-32,181760503805385596u},{-32,243345505152351110u},{-32,304930506499316624u},{-32,397308008519764895u},{-32,486691010304702220u},{-32,609861012998633248u},{-32,760829016130536087u},{-32,794616017039529790u},{-32,973382020609404440u},{-32,1007169021518398143u},{-32,1219722025997266496u},{-32,1555445033170065877u},{-32,2439444051994532992u},{-32,3110890066340131754u},{-32,3994889085164598869u},{-32,4878888103989065984u},{-32,6221780132680263508u},{-32,7105779151504730623u},{-32,7989778170329197738u},{-32,8873777189153664853u},{-32,9757776207978131968u},
{-31,100618531186512u},{-31,120923274917205u},{-31,180932318642331u},{-31,201237062373024u},{-31,221541806103717u},{-31,241846549834410u},{-31,262151293565103u},{-31,402474124746048u},{-31,422778868476741u},{-31,443083612207434u},{-31,463388355938127u},{-31,570473405879219u},{-31,611082893340605u},{-31,845557736953482u},{-31,886167224414868u},{-31,1007995686799026u},{-31,1039423093104973u},{-31,1048605174260412u},{-31,1080032580566359u},{-31,1140946811758438u},{-31,1456640630294087u},{-31,1772334448829736u},{-31,2088028267365385u},{-31,2678806416975297u},{-31,2913281260588174u},{-31,3544668897659472u},{-31,3779143741272349u},{-31,4410531378343647u},{-31,5592087677563471u},{-31,5826562521176348u},{-31,7323812638931821u},{-31,8821062756687294u},{-31,9127574494067504u},{-31,9217975550145715u},{-31,9686925237371469u},{-31,14647625277863642u},{-31,16144875395619115u},{-31,19373850474742938u},{-31,24334550515235111u},{-31,29295250555727284u},{-31,32289750791238230u},{-31,40713900754467103u},{-31,48669101030470222u},{-31,56624301306473341u},{-31,66545701387457687u},{-31,79461601703952979u},{-31,81427801508934206u},{-31,95372002255959217u},{-31,97338202060940444u},{-31,115214802417927909u},{-31,133091402774915374u},{-31,158923203407905958u},{-31,194676404121880888u},{-31,230429604835855818u},{-31,264216605744849521u},{-31,317846406815811916u},{-31,389352808243761776u},{-31,494646210580705339u},{-31,566152612008655199u},{-31,601905812722630129u},{-31,635692813631623832u},{-31,778705616487523552u},{-31,812492617396517255u},{-31,989292421161410678u},{-31,1023079422070404381u},{-31,1056866422979398084u},{-31,1098518223108316695u},{-31,1132305224017310398u},{-31,2298397448943614499u},{-31,2651997056473401345u},{-31,3005596664003188191u},{-31,4596794897887228998u},{-31,9193589795774457996u},{-31,9302815597721364013u},
{-30,106696933657129u},{-30,107085049941092u},{-30,122216578668121u},{-30,152867752406142u},{-30,193477239867528u},{-30,244433157336242u},{-30,275084331074263u},{-30,417605653473077u},{-30,488866314672484u},{-30,662038810809319u},{-30,835211306946154u},{-30,966998083053677u},{-30,977732629344968u},{-30,988467175636259u},{-30,1212207472957845u},{-30,1558552465231515u},{-30,1670422613892308u},{-30,1843595110029143u},{-30,2536285094576483u},{-30,3228975079123823u},{-30,4268010055944833u},{-30,5072570189152966u},{-30,6457950158247646u},{-30,8536020111889666u},{-30,9340580245097799u},{-30,10145140378305932u},{-30,12111340183287159u},{-30,12915900316495292u},{-30,13720460449703425u},{-30,18681160490195598u},{-30,22256480561593091u},{-30,25831800632990584u},{-30,32177880642577437u},{-30,39328520785372423u},{-30,46479160928167409u},{-30,64355761285154874u},{-30,103327202531962336u},{-30,107259602141924790u},{-30,112444042479738549u},{-30,133895962908123507u},{-30,162498523479303451u},{-30,191101084050483395u},{-30,219703644621663339u},{-30,324997046958606902u},{-30,382202168100966790u},{-30,530399411294680269u},{-30,649994093917213804u},{-30,883999018824467115u},{-30,930835259291199485u},{-30,941204139966827003u},{-30,951573020642454521u},{-30,1060798822589360538u},{-30,1180393505211894073u},{-30,1767998037648934230u},{-30,2121597645178721076u},{-30,2360787010423788146u},{-30,2948391542860828303u},{-30,3535996075297868460u},{-30,3655590757920401995u},{-30,5896783085721656606u},{-30,6484387618158696763u},{-30,7311181515840803990u},{-30,8377164778767978287u},{-30,9552373843642058601u},
{-29,107886823171447u},{-29,142521322398814u},{-29,177155821626181u},{-29,242441494591569u},{-29,311710493046303u},{-29,484882989183138u},{-29,623420986092606u},{-29,943098130117601u},{-29,969765978366276u},{-29,1220174123936537u},{-29,1246841972185212u},{-29,2189940102302813u},{-29,2744092089940685u},{-29,3021168083759621u},{-29,4129472059035365u},{-29,5488184179881370u},{-29,5791928021948981u},{-29,6042336167519242u},{-29,8258944118070730u},{-29,8509352263640991u},{-29,10225143923051957u},{-29,10475552068622218u},{-29,10725960214192479u},{-29,10976368359762740u},{-29,11226776505333001u},{-29,11834264189468223u},{-29,16768296381711721u},{-29,21451920428384958u},{-29,33536592763423442u},{-29,38220216810096679u},{-29,42903840856769916u},{-29,52521497095686651u},{-29,76440433620193358u},{-29,91492938342494113u},{-29,94674113515745784u},{-29,99858553853559543u},{-29,105042994191373302u},{-29,128961930715880009u},{-29,152880867240386716u},{-29,257923861431760018u},{-29,281842797956266725u},{-29,305761734480773432u},{-29,659361342010560278u},{-29,707199215059573692u},{-29,731118151584080399u},{-29,826793897682107227u},{-29,922469643780134055u},{-29,1318722684021120556u},{-29,1414398430119147384u},{-29,1462236303168160798u},{-29,2145516581703227783u},{-29,2828796860238294768u},{-29,2924472606336321596u},{-29,3607752884871388581u},{-29,5848945212672643192u},{-29,7215505769742777162u},{-29,8281489032669951459u},{-29,9648049589740085429u},
{-28,143871566559203u},{-28,548818417988137u},{-28,559485557287607u},{-28,804560133208133u},{-28,825894411807073u},{-28,1033634000179454u},{-28,1054968278778394u},{-28,1076302557377334u},{-28,1118971114575214u},{-28,1651788823614146u},{-28,2195273671952548u},{-28,2467016096121749u},{-28,3303577647228292u},{-28,4390547343905096u},{-28,5770593743350041u},{-28,6607155294456584u},{-28,9196573864554954u},{-28,9702993353312495u},{-28,9868064384486996u},{-28,10704625935593539u},{-28,11541187486700082u},{-28,12377749037806625u},{-28,13214310588913168u},{-28,24755498075613250u},{-28,31613061515640095u},{-28,56368559591253345u},{-28,78614373013546966u},{-28,85471936453573811u},{-28,99021992302453000u},{-28,105879555742479845u},{-28,112737119182506690u},{-28,119594682622533535u},{-28,184493928756026811u},{-28,225474238365013380u},{-28,368987857512053622u},{-28,505643913219067019u},{-28,601319659317093847u},{-28,737975715024107244u},{-28,874631770731120641u},{-28,1011287826438134038u},{-28,1038553009167066917u},{-28,1147943882145147435u},{-28,1229904501363120573u},{-28,4345728599895495825u},{-28,5712289156965629795u},{-28,9538658716762004911u},{-28,9839236010904964584u},
{-27,263208712729625u},{-27,271742424169201u},{-27,280276135608777u},{-27,288809847048353u},{-27,543484848338402u},{-27,560552271217554u},{-27,810960416787815u},{-27,828027839666967u},{-27,921898665502303u},{-27,956033511260607u},{-27,984565159401892u},{-27,1086969696676804u},{-27,1388580110884521u},{-27,1656055679333934u},{-27,1940598670662499u},{-27,2475549807561325u},{-27,3010500944460151u},{-27,3312111358667868u},{-27,4951099615122650u},{-27,6322612303128019u},{-27,8530686542239931u},{-27,9902199230245300u},{-27,11273711918250669u},{-27,12645224606256038u},{-27,14016737294261407u},{-27,17061373084479862u},{-27,18432885772485231u},{-27,19804398460490600u},{-27,23918936524506707u},{-27,25290449212512076u},{-27,26661961900517445u},{-27,39608796920981200u},{-27,42351822296991938u},{-27,45094847673002676u},{-27,47837873049013414u},{-27,50580898425024152u},{-27,84703644593983876u},{-27,90189695346005352u},{-27,95675746098026828u},{-27,101161796850048304u},{-27,106647847602069780u},{-27,111968827322916755u},{-27,112133898354091256u},{-27,131170004954991921u},{-27,142142106459034873u},{-27,180379390692010704u},{-27,229588776429029487u},{-27,235074827181050963u},{-27,360758781384021408u},{-27,409968167121040191u},{-27,459177552858058974u},{-27,770726948505061599u},{-27,819936334242080382u},{-27,869145719979099165u},{-27,918355105716117948u},{-27,934978329003356877u},{-27,940299308724203852u},{-27,945620288445050827u},{-27,950941268165897802u},{-27,956262247886744777u},{-27,1142457831393125959u},{-27,1240876602867163525u},{-27,1639872668484160764u},{-27,1738291439958198330u},{-27,2284915662786251918u},{-27,2782330499877286723u},{-27,3476582879916396660u},{-27,4569831325572503836u},{-27,6258913379793683383u},{-27,6953165759832793320u},{-27,8445410271105897735u},{-27,9139662651145007672u},{-27,9833915031184117609u},
{-26,105283485091850u},{-26,122350907971002u},{-26,162192083357563u},{-26,210566970183700u},{-26,284542991328565u},{-26,324384166715126u},{-26,495109961512265u},{-26,648768333430252u},{-26,722744354575117u},{-26,836561551106543u},{-26,842267880734800u},{-26,984513593396273u},{-26,990219923024530u},{-26,995926252652787u},{-26,1143878294942517u},{-26,1297536666860504u},{-26,1445488709150234u},{-26,1826781474131073u},{-26,1980439846049060u},{-26,2134098217967047u},{-26,3960879692098120u},{-26,5332392380103489u},{-26,6857563440026845u},{-26,7921759384196240u},{-26,8985955328365635u},{-26,9600588816037583u},{-26,10050151272535030u},{-26,10664784760206978u},{-26,11279418247878926u},{-26,15843518768392480u},{-26,21329569520413956u},{-26,22393765464583351u},{-26,30622841592615565u},{-26,31687037536784960u},{-26,43723334984997307u},{-26,62309879129400525u},{-26,86382474025825219u},{-26,87446669969994614u},{-26,123555562314631655u},{-26,124619758258801050u},{-26,173829143995819833u},{-26,248175320573432705u},{-26,347658287991639666u},{-26,396867673728658449u},{-26,496350641146865410u},{-26,595833608565072371u},{-26,793735347457316898u},{-26,895346706763862649u},{-26,992701282293730820u},{-26,1191667217130144742u},{-26,1390633151966558664u},{-26,1689082054221179547u},{-26,2781266303933117328u},{-26,3378164108442359094u},{-26,4072416488481469031u},{-26,4868280227827124719u},{-26,5562532607866234656u},{-26,6654716857578172437u},{-26,6756328216884718188u},{-26,8144832976962938062u},{-26,8246444336269483813u},{-26,9634949096347703687u},{-26,9736560455654249438u},
{-25,113817196531426u},{-25,128612400760399u},{-25,143407604989372u},{-25,168453576146960u},{-25,198043984604906u},{-25,227634393062852u},{-25,396087969209812u},{-25,792175938419624u},{-25,1005015127253503u},{-25,1099492682255598u},{-25,1123376761085287u},{-25,1371512688005369u},{-25,1584351876839248u},{-25,1797191065673127u},{-25,2010030254507006u},{-25,2530186187176859u},{-25,2743025376010738u},{-25,2955864564844617u},{-25,3168703753678496u},{-25,3381542942512375u},{-25,3594382131346254u},{-25,5698889940855355u},{-25,5911729129689234u},{-25,6124568318523113u},{-25,6337407507356992u},{-25,6550246696190871u},{-25,6763085885024750u},{-25,9482227182205799u},{-25,9695066371039678u},{-25,9907905559873557u},{-25,11397779881710710u},{-25,11610619070544589u},{-25,11823458259378468u},{-25,12461975825880105u},{-25,12674815014713984u},{-25,12887654203547863u},{-25,24285434085258573u},{-25,24498273274092452u},{-25,24711112462926331u},{-25,24923951651760210u},{-25,25136790840594089u},{-25,25349630029427968u},{-25,49209385737018783u},{-25,49422224925852662u},{-25,49635064114686541u},{-25,49847903303520420u},{-25,50060742492354299u},{-25,97141736341034292u},{-25,97567414718702050u},{-25,97993093096369808u},{-25,99695806607040840u},{-25,100121484984708598u},{-25,198540256458746164u},{-25,297597545499285367u},{-25,397080512917492328u},{-25,496989158713367047u},{-25,695955093549780969u},{-25,794161025834984656u},{-25,993978317426734094u},{-25,1092184249711937781u},{-25,1190390181997141468u},{-25,9645165377411729879u},{-25,9726344174590223246u},{-25,9943188601288683004u},
{-24,102678168544987u},{-24,105172452459622u},{-24,107666736374257u},{-24,110161020288892u},{-24,134762860917568u},{-24,153658371917987u},{-24,172553882918406u},{-24,269525721835136u},{-24,406782866667339u},{-24,444573888668177u},{-24,676308588502475u},{-24,889147777336354u},{-24,954752685679490u},{-24,960800013825421u},{-24,988613900167719u},{-24,1139777988171071u},{-24,1352617177004950u},{-24,1565456365838829u},{-24,1778295554672708u},{-24,2066716787508263u},{-24,2279555976342142u},{-24,2492395165176021u},{-24,2705234354009900u},{-24,2918073542843779u},{-24,4133433575016526u},{-24,4346272763850405u},{-24,4559111952684284u},{-24,4984790330352042u},{-24,5197629519185921u},{-24,5410468708019800u},{-24,8266867150033052u},{-24,8479706338866931u},{-24,8692545527700810u},{-24,9969580660704084u},{-24,10182419849537963u},{-24,10395259038371842u},{-24,10608098227205721u},{-24,19087804566072652u},{-24,19513482943740410u},{-24,19939161321408168u},{-24,20364839699075926u},{-24,20790518076743684u},{-24,39026965887480820u},{-24,39878322642816336u},{-24,59178966397722867u},{-24,60456001530726141u},{-24,79756645285632672u},{-24,99057289040539203u},{-24,100760002551210235u},{-24,118357932795445734u},{-24,138509933305687781u},{-24,159513290571265344u},{-24,198114578081078406u},{-24,219117935346655969u},{-24,967296024491618256u},{-24,978083100693169627u},{-24,988870176894720998u},{-24,999657253096272369u},
{-23,135261717700495u},{-23,270523435400990u},{-23,367994131100647u},{-23,541046870801980u},{-23,833458957900951u},{-23,869254552770081u},{-23,905050147639211u},{-23,1082093741603960u},{-23,1294932930437839u},{-23,1525669916706283u},{-23,1738509105540162u},{-23,1951348294374041u},{-23,2164187483207920u},{-23,2377026672041799u},{-23,2589865860875678u},{-23,3477018211080324u},{-23,3902696588748082u},{-23,4328374966415840u},{-23,6954036422160648u},{-23,7805393177496164u},{-23,8656749932831680u},{-23,10359463443502712u},{-23,10643893822074851u},{-23,11495250577410367u},{-23,15610786354992328u},{-23,20152000510242047u},{-23,28383072065405969u},{-23,31221572709984656u},{-23,40304001020484094u},{-23,43142501665062781u},{-23,99910580176255620u},
{-22,101050255186570u},{-22,104629814673483u},{-22,108209374160396u},{-22,111788933647309u},{-22,115368493134222u},{-22,118948052621135u},{-22,209259629346966u},{-22,216418748320792u},{-22,223577867294618u},{-22,432837496641584u},{-22,638517566501637u},{-22,667154042396941u},{-22,865674993283168u},{-22,1064195944169395u},{-22,1092832420064699u},{-22,1121468895960003u},{-22,1731349986566336u},{-22,1958507413347867u},{-22,3462699973132672u},{-22,3689857399914203u},{-22,4995529008812781u},{-22,6925399946265344u},{-22,7379714799828406u},{-22,9309585737280969u},{-22,9649354687262815u},{-22,9765834971224932u},{-22,9874577733663445u},{-22,9991058017625562u},
{-21,103362508789319u},{-21,109476680044560u},{-21,117680746736971u},{-21,139158103658449u},{-21,161680408298512u},{-21,190316884193816u},{-21,212839188833879u},{-21,300838511956961u},{-21,403156073027695u},{-21,425678377667758u},{-21,579154719273859u},{-21,601677023913922u},{-21,828834450695453u},{-21,851356755335516u},{-21,955608696787151u},{-21,974262240665412u},{-21,978131001427214u},{-21,996784545305475u},{-21,1180831743187781u},{-21,1203354047827844u},{-21,1657668901390906u},{-21,1680191206030969u},
{-20,124839865710797u},{-20,161262429211078u},{-20,227157426781531u},{-20,249679731421594u},{-20,322524858422156u},{-20,345047163062219u},{-20,807984062405126u},{-20,813262275485499u},{-20,903351494045751u},{-20,908629707126124u},{-20,998718925686376u},
{-19,110992099656812u},{-19,117889736280688u},{-19,130065585984937u},{-19,136963222608813u},{-19,149139072313062u},
{-4,5629499534213120625u},{-4,5629499534213121875u},{-4,5629499534213123125u},
{-3,1125899906842624125u},{-3,1125899906842624375u},{-3,1125899906842624625u},{-3,2251799813685248250u},{-3,2251799813685248750u},{-3,2251799813685249250u},{-3,4503599627370496500u},{-3,4503599627370497500u},{-3,4503599627370498500u},{-3,9007199254740993000u},{-3,9007199254740995000u},{-3,9007199254740997000u},
{-2,225179981368524825u},{-2,225179981368524875u},{-2,225179981368524925u},{-2,450359962737049650u},{-2,450359962737049750u},{-2,450359962737049850u},{-2,900719925474099300u},{-2,900719925474099500u},{-2,900719925474099700u},{-2,1000000000000000100u},{-2,1000000000000000300u},{-2,1000000000000000500u},{-2,1801439850948198600u},{-2,1801439850948199000u},{-2,1801439850948199400u},{-2,3602879701896397200u},{-2,3602879701896398000u},{-2,3602879701896398800u},{-2,7205759403792794400u},{-2,7205759403792796000u},{-2,7205759403792797600u},
{-1,45035996273704965u},{-1,45035996273704975u},{-1,45035996273704985u},{-1,90071992547409930u},{-1,90071992547409950u},{-1,90071992547409970u},{-1,100000000000000010u},{-1,100000000000000030u},{-1,100000000000000050u},{-1,180143985094819860u},{-1,180143985094819900u},{-1,180143985094819940u},{-1,360287970189639720u},{-1,360287970189639800u},{-1,360287970189639880u},{-1,720575940379279440u},{-1,720575940379279600u},{-1,720575940379279760u},{-1,1000000000000000080u},{-1,1000000000000000240u},{-1,1000000000000000400u},{-1,1441151880758558880u},{-1,1441151880758559200u},{-1,1441151880758559520u},{-1,2882303761517117760u},{-1,2882303761517118400u},{-1,2882303761517119040u},{-1,5764607523034235520u},{-1,5764607523034236800u},{-1,5764607523034238080u},
{0,9007199254740993u},{0,9007199254740995u},{0,9007199254740997u},{0,10000000000000001u},{0,10000000000000003u},{0,10000000000000005u},{0,18014398509481986u},{0,18014398509481990u},{0,18014398509481994u},{0,36028797018963972u},{0,36028797018963980u},{0,36028797018963988u},{0,72057594037927944u},{0,72057594037927960u},{0,72057594037927976u},{0,100000000000000008u},{0,100000000000000024u},{0,100000000000000040u},{0,144115188075855888u},{0,144115188075855920u},{0,144115188075855952u},{0,288230376151711776u},{0,288230376151711840u},{0,288230376151711904u},{0,576460752303423552u},{0,576460752303423680u},{0,576460752303423808u},{0,1000000000000000064u},{0,1000000000000000192u},{0,1000000000000000320u},{0,1152921504606847104u},{0,1152921504606847360u},{0,1152921504606847616u},{0,2305843009213694208u},{0,2305843009213694720u},{0,2305843009213695232u},{0,4611686018427388416u},{0,4611686018427389440u},{0,4611686018427390464u},{0,9223372036854776832u},{0,9223372036854778880u},{0,9223372036854780928u},
{1,1801439850948199u},{1,1801439850948201u},{1,1801439850948203u},{1,3602879701896398u},{1,3602879701896402u},{1,3602879701896406u},{1,7205759403792796u},{1,7205759403792804u},{1,7205759403792812u},{1,10000000000000004u},{1,10000000000000012u},{1,10000000000000020u},{1,14411518807585592u},{1,14411518807585608u},{1,14411518807585624u},{1,28823037615171184u},{1,28823037615171216u},{1,28823037615171248u},{1,57646075230342368u},{1,57646075230342432u},{1,57646075230342496u},{1,100000000000000032u},{1,100000000000000096u},{1,100000000000000160u},{1,115292150460684736u},{1,115292150460684864u},{1,115292150460684992u},{1,230584300921369472u},{1,230584300921369728u},{1,230584300921369984u},{1,461168601842738944u},{1,461168601842739456u},{1,461168601842739968u},{1,922337203685477888u},{1,922337203685478912u},{1,922337203685479936u},{1,1000000000000000512u},{1,1000000000000001536u},{1,1000000000000002560u},{1,1844674407370955776u},{1,1844674407370957824u},{1,1844674407370959872u},{1,3689348814741911552u},{1,3689348814741915648u},{1,3689348814741919744u},{1,7378697629483823104u},{1,7378697629483831296u},{1,7378697629483839488u},
{2,360287970189641u},{2,360287970189643u},{2,360287970189645u},{2,720575940379282u},{2,720575940379286u},{2,720575940379290u},{2,1000000000000002u},{2,1000000000000006u},{2,1000000000000010u},{2,1441151880758564u},{2,1441151880758572u},{2,1441151880758580u},{2,2882303761517128u},{2,2882303761517144u},{2,2882303761517160u},{2,5764607523034256u},{2,5764607523034288u},{2,5764607523034320u},{2,10000000000000016u},{2,10000000000000048u},{2,10000000000000080u},{2,11529215046068512u},{2,11529215046068576u},{2,11529215046068640u},{2,23058430092137024u},{2,23058430092137152u},{2,23058430092137280u},{2,46116860184274048u},{2,46116860184274304u},{2,46116860184274560u},{2,92233720368548096u},{2,92233720368548608u},{2,92233720368549120u},{2,100000000000000256u},{2,100000000000000768u},{2,100000000000001280u},{2,184467440737096192u},{2,184467440737097216u},{2,184467440737098240u},{2,368934881474192384u},{2,368934881474194432u},{2,368934881474196480u},{2,737869762948384768u},{2,737869762948388864u},{2,737869762948392960u},{2,1000000000000002048u},{2,1000000000000006144u},{2,1000000000000010240u},{2,1475739525896769536u},{2,1475739525896777728u},{2,1475739525896785920u},{2,2951479051793539072u},{2,2951479051793555456u},{2,2951479051793571840u},{2,5902958103587078144u},{2,5902958103587110912u},{2,5902958103587143680u},
{3,100000000000001u},{3,100000000000003u},{3,100000000000005u},{3,144115188075858u},{3,144115188075862u},{3,144115188075866u},{3,288230376151716u},{3,288230376151724u},{3,288230376151732u},{3,576460752303432u},{3,576460752303448u},{3,576460752303464u},{3,1000000000000008u},{3,1000000000000024u},{3,1000000000000040u},{3,1152921504606864u},{3,1152921504606896u},{3,1152921504606928u},{3,2305843009213728u},{3,2305843009213792u},{3,2305843009213856u},{3,4611686018427456u},{3,4611686018427584u},{3,4611686018427712u},{3,9223372036854912u},{3,9223372036855168u},{3,9223372036855424u},{3,10000000000000128u},{3,10000000000000384u},{3,10000000000000640u},{3,18446744073709824u},{3,18446744073710336u},{3,18446744073710848u},{3,36893488147419648u},{3,36893488147420672u},{3,36893488147421696u},{3,73786976294839296u},{3,73786976294841344u},{3,73786976294843392u},{3,100000000000001024u},{3,100000000000003072u},{3,100000000000005120u},{3,147573952589678592u},{3,147573952589682688u},{3,147573952589686784u},{3,295147905179357184u},{3,295147905179365376u},{3,295147905179373568u},{3,590295810358714368u},{3,590295810358730752u},{3,590295810358747136u},{3,1000000000000008192u},{3,1000000000000024576u},{3,1000000000000040960u},{3,1180591620717428736u},{3,1180591620717461504u},{3,1180591620717494272u},{3,2361183241434857472u},{3,2361183241434923008u},{3,2361183241434988544u},{3,4722366482869714944u},{3,4722366482869846016u},{3,4722366482869977088u},{3,9444732965739429888u},{3,9444732965739692032u},{3,9444732965739954176u},
{4,100000000000004u},{4,100000000000012u},{4,100000000000020u},{4,115292150460696u},{4,115292150460712u},{4,115292150460728u},{4,230584300921392u},{4,230584300921424u},{4,230584300921456u},{4,461168601842784u},{4,461168601842848u},{4,461168601842912u},{4,922337203685568u},{4,922337203685696u},{4,922337203685824u},{4,1000000000000064u},{4,1000000000000192u},{4,1000000000000320u},{4,1844674407371136u},{4,1844674407371392u},{4,1844674407371648u},{4,3689348814742272u},{4,3689348814742784u},{4,3689348814743296u},{4,7378697629484544u},{4,7378697629485568u},{4,7378697629486592u},{4,10000000000000512u},{4,10000000000001536u},{4,10000000000002560u},{4,14757395258969088u},{4,14757395258971136u},{4,14757395258973184u},{4,29514790517938176u},{4,29514790517942272u},{4,29514790517946368u},{4,59029581035876352u},{4,59029581035884544u},{4,59029581035892736u},{4,100000000000004096u},{4,100000000000012288u},{4,100000000000020480u},{4,118059162071752704u},{4,118059162071769088u},{4,118059162071785472u},{4,236118324143505408u},{4,236118324143538176u},{4,236118324143570944u},{4,472236648287010816u},{4,472236648287076352u},{4,472236648287141888u},{4,944473296574021632u},{4,944473296574152704u},{4,944473296574283776u},{4,1000000000000065536u},{4,1000000000000196608u},{4,1000000000000327680u},{4,1888946593148043264u},{4,1888946593148305408u},{4,1888946593148567552u},{4,3777893186296086528u},{4,3777893186296610816u},{4,3777893186297135104u},{4,7555786372592173056u},{4,7555786372593221632u},{4,7555786372594270208u},
{5,100000000000032u},{5,100000000000096u},{5,100000000000160u},{5,184467440737216u},{5,184467440737344u},{5,184467440737472u},{5,368934881474432u},{5,368934881474688u},{5,368934881474944u},{5,737869762948864u},{5,737869762949376u},{5,737869762949888u},{5,1000000000000256u},{5,1000000000000768u},{5,1000000000001280u},{5,1475739525897728u},{5,1475739525898752u},{5,1475739525899776u},{5,2951479051795456u},{5,2951479051797504u},{5,2951479051799552u},{5,5902958103590912u},{5,5902958103595008u},{5,5902958103599104u},{5,10000000000002048u},{5,10000000000006144u},{5,10000000000010240u},{5,11805916207181824u},{5,11805916207190016u},{5,11805916207198208u},{5,23611832414363648u},{5,23611832414380032u},{5,23611832414396416u},{5,47223664828727296u},{5,47223664828760064u},{5,47223664828792832u},{5,94447329657454592u},{5,94447329657520128u},{5,94447329657585664u},{5,100000000000032768u},{5,100000000000098304u},{5,100000000000163840u},{5,188894659314909184u},{5,188894659315040256u},{5,188894659315171328u},{5,377789318629818368u},{5,377789318630080512u},{5,377789318630342656u},{5,755578637259636736u},{5,755578637260161024u},{5,755578637260685312u},{5,1000000000000000000u},{5,1000000000000524288u},{5,1000000000001048576u},{5,1511157274519273472u},{5,1511157274520322048u},{5,1511157274521370624u},{5,3022314549038546944u},{5,3022314549040644096u},{5,3022314549042741248u},{5,6044629098077093888u},{5,6044629098081288192u},{5,6044629098085482496u},
{6,100000000000128u},{6,100000000000384u},{6,100000000000640u},{6,147573952590080u},{6,147573952590592u},{6,147573952591104u},{6,295147905180160u},{6,295147905181184u},{6,295147905182208u},{6,590295810360320u},{6,590295810362368u},{6,590295810364416u},{6,1000000000001024u},{6,1000000000003072u},{6,1000000000005120u},{6,1180591620720640u},{6,1180591620724736u},{6,1180591620728832u},{6,2361183241441280u},{6,2361183241449472u},{6,2361183241457664u},{6,4722366482882560u},{6,4722366482898944u},{6,4722366482915328u},{6,9444732965765120u},{6,9444732965797888u},{6,9444732965830656u},{6,10000000000016384u},{6,10000000000049152u},{6,10000000000081920u},{6,18889465931530240u},{6,18889465931595776u},{6,18889465931661312u},{6,37778931863060480u},{6,37778931863191552u},{6,37778931863322624u},{6,75557863726120960u},{6,75557863726383104u},{6,75557863726645248u},{6,100000000000000000u},{6,100000000000262144u},{6,100000000000524288u},{6,151115727452241920u},{6,151115727452766208u},{6,151115727453290496u},{6,302231454904483840u},{6,302231454905532416u},{6,302231454906580992u},{6,604462909808967680u},{6,604462909811064832u},{6,604462909813161984u},{6,1000000000000786432u},{6,1000000000002883584u},{6,1000000000004980736u},{6,1208925819617935360u},{6,1208925819622129664u},{6,1208925819626323968u},{6,2417851639235870720u},{6,2417851639244259328u},{6,2417851639252647936u},{6,4835703278471741440u},{6,4835703278488518656u},{6,4835703278505295872u},{6,9671406556943482880u},{6,9671406556977037312u},{6,9671406557010591744u},
{7,100000000000512u},{7,100000000001536u},{7,100000000002560u},{7,118059162072064u},{7,118059162074112u},{7,118059162076160u},{7,236118324144128u},{7,236118324148224u},{7,236118324152320u},{7,472236648288256u},{7,472236648296448u},{7,472236648304640u},{7,944473296576512u},{7,944473296592896u},{7,944473296609280u},{7,1000000000008192u},{7,1000000000024576u},{7,1000000000040960u},{7,1888946593153024u},{7,1888946593185792u},{7,1888946593218560u},{7,3777893186306048u},{7,3777893186371584u},{7,3777893186437120u},{7,7555786372612096u},{7,7555786372743168u},{7,7555786372874240u},{7,10000000000000000u},{7,10000000000131072u},{7,10000000000262144u},{7,15111572745224192u},{7,15111572745486336u},{7,15111572745748480u},{7,30223145490448384u},{7,30223145490972672u},{7,30223145491496960u},{7,60446290980896768u},{7,60446290981945344u},{7,60446290982993920u},{7,100000000000917504u},{7,100000000001966080u},{7,100000000003014656u},{7,120892581961793536u},{7,120892581963890688u},{7,120892581965987840u},{7,241785163923587072u},{7,241785163927781376u},{7,241785163931975680u},{7,483570327847174144u},{7,483570327855562752u},{7,483570327863951360u},{7,967140655694348288u},{7,967140655711125504u},{7,967140655727902720u},{7,1000000000001835008u},{7,1000000000018612224u},{7,1000000000035389440u},{7,1934281311388696576u},{7,1934281311422251008u},{7,1934281311455805440u},{7,3868562622777393152u},{7,3868562622844502016u},{7,3868562622911610880u},{7,7737125245554786304u},{7,7737125245689004032u},{7,7737125245823221760u},
{8,100000000004096u},{8,100000000012288u},{8,100000000020480u},{8,188894659321856u},{8,188894659338240u},{8,188894659354624u},{8,377789318643712u},{8,377789318676480u},{8,377789318709248u},{8,755578637287424u},{8,755578637352960u},{8,755578637418496u},{8,1000000000000000u},{8,1000000000065536u},{8,1000000000131072u},{8,1511157274574848u},{8,1511157274705920u},{8,1511157274836992u},{8,3022314549149696u},{8,3022314549411840u},{8,3022314549673984u},{8,6044629098299392u},{8,6044629098823680u},{8,6044629099347968u},{8,10000000000196608u},{8,10000000000720896u},{8,10000000001245184u},{8,12089258196598784u},{8,12089258197647360u},{8,12089258198695936u},{8,24178516393197568u},{8,24178516395294720u},{8,24178516397391872u},{8,48357032786395136u},{8,48357032790589440u},{8,48357032794783744u},{8,96714065572790272u},{8,96714065581178880u},{8,96714065589567488u},{8,100000000003538944u},{8,100000000011927552u},{8,100000000020316160u},{8,193428131145580544u},{8,193428131162357760u},{8,193428131179134976u},{8,386856262291161088u},{8,386856262324715520u},{8,386856262358269952u},{8,773712524582322176u},{8,773712524649431040u},{8,773712524716539904u},{8,1000000000043778048u},{8,1000000000110886912u},{8,1000000000177995776u},{8,1547425049164644352u},{8,1547425049298862080u},{8,1547425049433079808u},{8,3094850098329288704u},{8,3094850098597724160u},{8,3094850098866159616u},{8,6189700196658577408u},{8,6189700197195448320u},{8,6189700197732319232u},
{9,100000000000000u},{9,100000000032768u},{9,100000000065536u},{9,151115727470592u},{9,151115727536128u},{9,151115727601664u},{9,302231454941184u},{9,302231455072256u},{9,302231455203328u},{9,604462909882368u},{9,604462910144512u},{9,604462910406656u},{9,1000000000229376u},{9,1000000000491520u},{9,1000000000753664u},{9,1208925819764736u},{9,1208925820289024u},{9,1208925820813312u},{9,2417851639529472u},{9,2417851640578048u},{9,2417851641626624u},{9,4835703279058944u},{9,4835703281156096u},{9,4835703283253248u},{9,9671406558117888u},{9,9671406562312192u},{9,9671406566506496u},{9,10000000002031616u},{9,10000000006225920u},{9,10000000010420224u},{9,19342813116235776u},{9,19342813124624384u},{9,19342813133012992u},{9,38685626232471552u},{9,38685626249248768u},{9,38685626266025984u},{9,77371252464943104u},{9,77371252498497536u},{9,77371252532051968u},{9,100000000024510464u},{9,100000000058064896u},{9,100000000091619328u},{9,154742504929886208u},{9,154742504996995072u},{9,154742505064103936u},{9,309485009859772416u},{9,309485009993990144u},{9,309485010128207872u},{9,618970019719544832u},{9,618970019987980288u},{9,618970020256415744u},{9,1000000000010223616u},{9,1000000000278659072u},{9,1000000000547094528u},{9,1237940039439089664u},{9,1237940039975960576u},{9,1237940040512831488u},{9,2475880078878179328u},{9,2475880079951921152u},{9,2475880081025662976u},{9,4951760157756358656u},{9,4951760159903842304u},{9,4951760162051325952u},{9,9903520315512717312u},{9,9903520319807684608u},{9,9903520324102651904u},
{10,100000000049152u},{10,100000000180224u},{10,100000000311296u},{10,120892582133760u},{10,120892582395904u},{10,120892582658048u},{10,241785164267520u},{10,241785164791808u},{10,241785165316096u},{10,483570328535040u},{10,483570329583616u},{10,483570330632192u},{10,967140657070080u},{10,967140659167232u},{10,967140661264384u},{10,1000000000622592u},{10,1000000002719744u},{10,1000000004816896u},{10,1934281314140160u},{10,1934281318334464u},{10,1934281322528768u},{10,3868562628280320u},{10,3868562636668928u},{10,3868562645057536u},{10,7737125256560640u},{10,7737125273337856u},{10,7737125290115072u},{10,10000000012517376u},{10,10000000029294592u},{10,10000000046071808u},{10,15474250513121280u},{10,15474250546675712u},{10,15474250580230144u},{10,30948501026242560u},{10,30948501093351424u},{10,30948501160460288u},{10,61897002052485120u},{10,61897002186702848u},{10,61897002320920576u},{10,100000000108396544u},{10,100000000242614272u},{10,100000000376832000u},{10,123794004104970240u},{10,123794004373405696u},{10,123794004641841152u},{10,247588008209940480u},{10,247588008746811392u},{10,247588009283682304u},{10,495176016419880960u},{10,495176017493622784u},{10,495176018567364608u},{10,990352032839761920u},{10,990352034987245568u},{10,990352037134729216u},{10,1000000000412876800u},{10,1000000002560360448u},{10,1000000004707844096u},{10,1980704065679523840u},{10,1980704069974491136u},{10,1980704074269458432u},{10,3961408131359047680u},{10,3961408139948982272u},{10,3961408148538916864u},{10,7922816262718095360u},{10,7922816279897964544u},{10,7922816297077833728u},
{11,100000000901120u},{11,100000001949696u},{11,100000002998272u},{11,193428131414016u},{11,193428133511168u},{11,193428135608320u},{11,386856262828032u},{11,386856267022336u},{11,386856271216640u},{11,773712525656064u},{11,773712534044672u},{11,773712542433280u},{11,1000000007962624u},{11,1000000016351232u},{11,1000000024739840u},{11,1547425051312128u},{11,1547425068089344u},{11,1547425084866560u},{11,3094850102624256u},{11,3094850136178688u},{11,3094850169733120u},{11,6189700205248512u},{11,6189700272357376u},{11,6189700339466240u},{11,10000000037683200u},{11,10000000104792064u},{11,10000000171900928u},{11,12379400410497024u},{11,12379400544714752u},{11,12379400678932480u},{11,24758800820994048u},{11,24758801089429504u},{11,24758801357864960u},{11,49517601641988096u},{11,49517602178859008u},{11,49517602715729920u},{11,99035203283976192u},{11,99035204357718016u},{11,99035205431459840u},{11,100000000041287680u},{11,100000001115029504u},{11,100000002188771328u},{11,198070406567952384u},{11,198070408715436032u},{11,198070410862919680u},{11,396140813135904768u},{11,396140817430872064u},{11,396140821725839360u},{11,792281626271809536u},{11,792281634861744128u},{11,792281643451678720u},{11,1000000005781585920u},{11,1000000014371520512u},{11,1000000022961455104u},{11,1584563252543619072u},{11,1584563269723488256u},{11,1584563286903357440u},{11,3169126505087238144u},{11,3169126539446976512u},{11,3169126573806714880u},{11,6338253010174476288u},{11,6338253078893953024u},{11,6338253147613429760u},
{12,100000002473984u},{12,100000006668288u},{12,100000010862592u},{12,154742508486656u},{12,154742516875264u},{12,154742525263872u},{12,309485016973312u},{12,309485033750528u},{12,309485050527744u},{12,618970033946624u},{12,618970067501056u},{12,618970101055488u},{12,1000000003768320u},{12,1000000037322752u},{12,1000000070877184u},{12,1237940067893248u},{12,1237940135002112u},{12,1237940202110976u},{12,2475880135786496u},{12,2475880270004224u},{12,2475880404221952u},{12,4951760271572992u},{12,4951760540008448u},{12,4951760808443904u},{12,9903520543145984u},{12,9903521080016896u},{12,9903521616887808u},{12,10000000004128768u},{12,10000000540999680u},{12,10000001077870592u},{12,19807041086291968u},{12,19807042160033792u},{12,19807043233775616u},{12,39614082172583936u},{12,39614084320067584u},{12,39614086467551232u},{12,79228164345167872u},{12,79228168640135168u},{12,79228172935102464u},{12,100000000578158592u},{12,100000004873125888u},{12,100000009168093184u},{12,158456328690335744u},{12,158456337280270336u},{12,158456345870204928u},{12,316912657380671488u},{12,316912674560540672u},{12,316912691740409856u},{12,633825314761342976u},{12,633825349121081344u},{12,633825383480819712u},{12,1000000001486618624u},{12,1000000035846356992u},{12,1000000070206095360u},{12,1267650629522685952u},{12,1267650698242162688u},{12,1267650766961639424u},{12,2535301259045371904u},{12,2535301396484325376u},{12,2535301533923278848u},{12,5070602518090743808u},{12,5070602792968650752u},{12,5070603067846557696u},
{13,100000000376832u},{13,100000017154048u},{13,100000033931264u},{13,123794026921984u},{13,123794060476416u},{13,123794094030848u},{13,247588053843968u},{13,247588120952832u},{13,247588188061696u},{13,495176107687936u},{13,495176241905664u},{13,495176376123392u},{13,990352215375872u},{13,990352483811328u},{13,990352752246784u},{13,1000000054099968u},{13,1000000322535424u},{13,1000000590970880u},{13,1980704430751744u},{13,1980704967622656u},{13,1980705504493568u},{13,3961408861503488u},{13,3961409935245312u},{13,3961411008987136u},{13,7922817723006976u},{13,7922819870490624u},{13,7922822017974272u},{13,10000001346306048u},{13,10000003493789696u},{13,10000005641273344u},{13,15845635446013952u},{13,15845639740981248u},{13,15845644035948544u},{13,31691270892027904u},{13,31691279481962496u},{13,31691288071897088u},{13,63382541784055808u},{13,63382558963924992u},{13,63382576143794176u},{13,100000007020609536u},{13,100000024200478720u},{13,100000041380347904u},{13,126765083568111616u},{13,126765117927849984u},{13,126765152287588352u},{13,253530167136223232u},{13,253530235855699968u},{13,253530304575176704u},{13,507060334272446464u},{13,507060471711399936u},{13,507060609150353408u},{13,1000000121745702912u},{13,1000000259184656384u},{13,1000000396623609856u},{13,1014120668544892928u},{13,1014120943422799872u},{13,1014121218300706816u},{13,2028241337089785856u},{13,2028241886845599744u},{13,2028242436601413632u},{13,4056482674179571712u},{13,4056483773691199488u},{13,4056484873202827264u},{13,8112965348359143424u},{13,8112967547382398976u},{13,8112969746405654528u},
{14,100000059097088u},{14,100000193314816u},{14,100000327532544u},{14,198070604136448u},{14,198070872571904u},{14,198071141007360u},{14,396141208272896u},{14,396141745143808u},{14,396142282014720u},{14,792282416545792u},{14,792283490287616u},{14,792284564029440u},{14,1000000993624064u},{14,1000002067365888u},{14,1000003141107712u},{14,1584564833091584u},{14,1584566980575232u},{14,1584569128058880u},{14,3169129666183168u},{14,3169133961150464u},{14,3169138256117760u},{14,6338259332366336u},{14,6338267922300928u},{14,6338276512235520u},{14,10000002420047872u},{14,10000011009982464u},{14,10000019599917056u},{14,12676518664732672u},{14,12676535844601856u},{14,12676553024471040u},{14,25353037329465344u},{14,25353071689203712u},{14,25353106048942080u},{14,50706074658930688u},{14,50706143378407424u},{14,50706212097884160u},{14,100000067150151680u},{14,100000135869628416u},{14,100000204589105152u},{14,101412149317861376u},{14,101412286756814848u},{14,101412424195768320u},{14,202824298635722752u},{14,202824573513629696u},{14,202824848391536640u},{14,405648597271445504u},{14,405649147027259392u},{14,405649696783073280u},{14,811297194542891008u},{14,811298294054518784u},{14,811299393566146560u},{14,1000000877659947008u},{14,1000001977171574784u},{14,1000003076683202560u},{14,1622594389085782016u},{14,1622596588109037568u},{14,1622598787132293120u},{14,3245188778171564032u},{14,3245193176218075136u},{14,3245197574264586240u},{14,6490377556343128064u},{14,6490386352436150272u},{14,6490395148529172480u},
{15,100000528859136u},{15,100001065730048u},{15,100001602600960u},{15,158456912805888u},{15,158457986547712u},{15,158459060289536u},{15,316913825611776u},{15,316915973095424u},{15,316918120579072u},{15,633827651223552u},{15,633831946190848u},{15,633836241158144u},{15,1000003677978624u},{15,1000007972945920u},{15,1000012267913216u},{15,1267655302447104u},{15,1267663892381696u},{15,1267672482316288u},{15,2535310604894208u},{15,2535327784763392u},{15,2535344964632576u},{15,5070621209788416u},{15,5070655569526784u},{15,5070689929265152u},{15,10000006715015168u},{15,10000041074753536u},{15,10000075434491904u},{15,10141242419576832u},{15,10141311139053568u},{15,10141379858530304u},{15,20282484839153664u},{15,20282622278107136u},{15,20282759717060608u},{15,40564969678307328u},{15,40565244556214272u},{15,40565519434121216u},{15,81129939356614656u},{15,81130489112428544u},{15,81131038868242432u},{15,100000307668320256u},{15,100000857424134144u},{15,100001407179948032u},{15,162259878713229312u},{15,162260978224857088u},{15,162262077736484864u},{15,324519757426458624u},{15,324521956449714176u},{15,324524155472969728u},{15,649039514852917248u},{15,649043912899428352u},{15,649048310945939456u},{15,1000003626439016448u},{15,1000008024485527552u},{15,1000012422532038656u},{15,1298079029705834496u},{15,1298087825798856704u},{15,1298096621891878912u},{15,2596158059411668992u},{15,2596175651597713408u},{15,2596193243783757824u},{15,5192316118823337984u},{15,5192351303195426816u},{15,5192386487567515648u},
{16,100000797294592u},{16,100002944778240u},{16,100005092261888u},{16,126768107225088u},{16,126772402192384u},{16,126776697159680u},{16,253536214450176u},{16,253544804384768u},{16,253553394319360u},{16,507072428900352u},{16,507089608769536u},{16,507106788638720u},{16,1000014415396864u},{16,1000031595266048u},{16,1000048775135232u},{16,1014144857800704u},{16,1014179217539072u},{16,1014213577277440u},{16,2028289715601408u},{16,2028358435078144u},{16,2028427154554880u},{16,4056579431202816u},{16,4056716870156288u},{16,4056854309109760u},{16,8113158862405632u},{16,8113433740312576u},{16,8113708618219520u},{16,10000195693576192u},{16,10000470571483136u},{16,10000745449390080u},{16,16226317724811264u},{16,16226867480625152u},{16,16227417236439040u},{16,32452635449622528u},{16,32453734961250304u},{16,32454834472878080u},{16,64905270899245056u},{16,64907469922500608u},{16,64909668945756160u},{16,100001682057854976u},{16,100003881081110528u},{16,100006080104366080u},{16,129810541798490112u},{16,129814939845001216u},{16,129819337891512320u},{16,259621083596980224u},{16,259629879690002432u},{16,259638675783024640u},{16,519242167193960448u},{16,519259759380004864u},{16,519277351566049280u},{16,1000001427415760896u},{16,1000019019601805312u},{16,1000036611787849728u},{16,1038484334387920896u},{16,1038519518760009728u},{16,1038554703132098560u},{16,2076968668775841792u},{16,2077039037520019456u},{16,2077109406264197120u},{16,4153937337551683584u},{16,4154078075040038912u},{16,4154218812528394240u},{16,8307874675103367168u},{16,8308156150080077824u},{16,8308437625056788480u},
{17,100008313487360u},{17,100016903421952u},{17,100025493356544u},{17,101421357727744u},{17,101438537596928u},{17,101455717466112u},{17,202842715455488u},{17,202877075193856u},{17,202911434932224u},{17,405685430910976u},{17,405754150387712u},{17,405822869864448u},{17,811370861821952u},{17,811508300775424u},{17,811645739728896u},{17,1000074544939008u},{17,1000211983892480u},{17,1000349422845952u},{17,1622741723643904u},{17,1623016601550848u},{17,1623291479457792u},{17,3245483447287808u},{17,3246033203101696u},{17,3246582958915584u},{17,6490966894575616u},{17,6492066406203392u},{17,6493165917831168u},{17,10000608010436608u},{17,10001707522064384u},{17,10002807033692160u},{17,12981933789151232u},{17,12984132812406784u},{17,12986331835662336u},{17,25963867578302464u},{17,25968265624813568u},{17,25972663671324672u},{17,51927735156604928u},{17,51936531249627136u},{17,51945327342649344u},{17,100007179615993856u},{17,100015975709016064u},{17,100024771802038272u},{17,103855470313209856u},{17,103873062499254272u},{17,103890654685298688u},{17,207710940626419712u},{17,207746124998508544u},{17,207781309370597376u},{17,415421881252839424u},{17,415492249997017088u},{17,415562618741194752u},{17,830843762505678848u},{17,830984499994034176u},{17,831125237482389504u},{17,1000010223508783104u},{17,1000150960997138432u},{17,1000291698485493760u},{17,1661687525011357696u},{17,1661968999988068352u},{17,1662250474964779008u},{17,3323375050022715392u},{17,3323937999976136704u},{17,3324500949929558016u},{17,6646750100045430784u},{17,6647875999952273408u},{17,6649001899859116032u},
{18,100021198389248u},{18,100089917865984u},{18,100158637342720u},{18,162384123527168u},{18,162521562480640u},{18,162659001434112u},{18,324768247054336u},{18,325043124961280u},{18,325318002868224u},{18,649536494108672u},{18,650086249922560u},{18,650636005736448u},{18,1000280703369216u},{18,1000830459183104u},{18,1001380214996992u},{18,1299072988217344u},{18,1300172499845120u},{18,1301272011472896u},{18,2598145976434688u},{18,2600344999690240u},{18,2602544022945792u},{18,5196291952869376u},{18,5200689999380480u},{18,5205088045891584u},{18,10003356789506048u},{18,10007754836017152u},{18,10012152882528256u},{18,10392583905738752u},{18,10401379998760960u},{18,10410176091783168u},{18,20785167811477504u},{18,20802759997521920u},{18,20820352183566336u},{18,41570335622955008u},{18,41605519995043840u},{18,41640704367132672u},{18,83140671245910016u},{18,83211039990087680u},{18,83281408734265344u},{18,100029169848549376u},{18,100099538592727040u},{18,100169907336904704u},{18,166281342491820032u},{18,166422079980175360u},{18,166562817468530688u},{18,332562684983640064u},{18,332844159960350720u},{18,333125634937061376u},{18,665125369967280128u},{18,665688319920701440u},{18,666251269874122752u},{18,1000080592252960768u},{18,1000643542206382080u},{18,1001206492159803392u},{18,1330250739934560256u},{18,1331376639841402880u},{18,1332502539748245504u},{18,2660501479869120512u},{18,2662753279682805760u},{18,2665005079496491008u},{18,5321002959738241024u},{18,5325506559365611520u},{18,5330010158992982016u},
{19,100192997081088u},{19,100467874988032u},{19,100742752894976u},{19,130017249984512u},{19,130567005798400u},{19,131116761612288u},{19,260034499969024u},{19,261134011596800u},{19,262233523224576u},{19,520068999938048u},{19,522268023193600u},{19,524467046449152u},{19,1001655092903936u},{19,1003854116159488u},{19,1006053139415040u},{19,1040137999876096u},{19,1044536046387200u},{19,1048934092898304u},{19,2080275999752192u},{19,2089072092774400u},{19,2097868185796608u},{19,4160551999504384u},{19,4178144185548800u},{19,4195736371593216u},{19,8321103999008768u},{19,8356288371097600u},{19,8391472743186432u},{19,10009953859272704u},{19,10045138231361536u},{19,10080322603450368u},{19,16642207998017536u},{19,16712576742195200u},{19,16782945486372864u},{19,33284415996035072u},{19,33425153484390400u},{19,33565890972745728u},{19,66568831992070144u},{19,66850306968780800u},{19,67131781945491456u},{19,100064354220638208u},{19,100345829197348864u},{19,100627304174059520u},{19,133137663984140288u},{19,133700613937561600u},{19,134263563890982912u},{19,266275327968280576u},{19,267401227875123200u},{19,268527127781965824u},{19,532550655936561152u},{19,534802455750246400u},{19,537054255563931648u},{19,1000925017183092736u},{19,1003176816996777984u},{19,1005428616810463232u},{19,1065101311873122304u},{19,1069604911500492800u},{19,1074108511127863296u},{19,2130202623746244608u},{19,2139209823000985600u},{19,2148217022255726592u},{19,4260405247492489216u},{19,4278419646001971200u},{19,4296434044511453184u},{19,8520810494984978432u},{19,8556839292003942400u},{19,8592868089022906368u},
{20,100605313941504u},{20,101704825569280u},{20,102804337197056u},{20,104453604638720u},{20,106652627894272u},{20,108851651149824u},{20,208907209277440u},{20,213305255788544u},{20,217703302299648u},{20,417814418554880u},{20,426610511577088u},{20,435406604599296u},{20,835628837109760u},{20,853221023154176u},{20,870813209198592u},{20,1011550697553920u},{20,1029142883598336u},{20,1046735069642752u},{20,1671257674219520u},{20,1706442046308352u},{20,1741626418397184u},{20,3342515348439040u},{20,3412884092616704u},{20,3483252836794368u},{20,6685030696878080u},{20,6825768185233408u},{20,6966505673588736u},{20,10062730417405952u},{20,10203467905761280u},{20,10344205394116608u},{20,13370061393756160u},{20,13651536370466816u},{20,13933011347177472u},{20,26740122787512320u},{20,27303072740933632u},{20,27866022694354944u},{20,53480245575024640u},{20,54606145481867264u},{20,55732045388709888u},{20,100768041662414848u},{20,101893941569257472u},{20,103019841476100096u},{20,106960491150049280u},{20,109212290963734528u},{20,111464090777419776u},{20,213920982300098560u},{20,218424581927469056u},{20,222928181554839552u},{20,427841964600197120u},{20,436849163854938112u},{20,445856363109679104u},{20,855683929200394240u},{20,873698327709876224u},{20,891712726219358208u},{20,1017813515785732096u},{20,1035827914295214080u},{20,1053842312804696064u},{20,1711367858400788480u},{20,1747396655419752448u},{20,1783425452438716416u},{20,3422735716801576960u},{20,3494793310839504896u},{20,3566850904877432832u},{20,6845471433603153920u},{20,6989586621679009792u},{20,7133701809754865664u},
{21,101155069755392u},{21,109951162777600u},{21,118747255799808u},{21,167125767421952u},{21,184717953466368u},{21,202310139510784u},{21,334251534843904u},{21,369435906932736u},{21,404620279021568u},{21,668503069687808u},{21,738871813865472u},{21,809240558043136u},{21,1020346790576128u},{21,1090715534753792u},{21,1161084278931456u},{21,1337006139375616u},{21,1477743627730944u},{21,1618481116086272u},{21,2674012278751232u},{21,2955487255461888u},{21,3236962232172544u},{21,5348024557502464u},{21,5910974510923776u},{21,6473924464345088u},{21,10414574138294272u},{21,10696049115004928u},{21,11821949021847552u},{21,12947848928690176u},{21,21392098230009856u},{21,23643898043695104u},{21,25895697857380352u},{21,42784196460019712u},{21,47287796087390208u},{21,51791395714760704u},{21,85568392920039424u},{21,94575592174780416u},{21,103582791429521408u},{21,112589990684262400u},{21,121597189939003392u},{21,171136785840078848u},{21,189151184349560832u},{21,207165582859042816u},{21,342273571680157696u},{21,378302368699121664u},{21,414331165718085632u},{21,684547143360315392u},{21,756604737398243328u},{21,828662331436171264u},{21,1044835113549955072u},{21,1116892707587883008u},{21,1188950301625810944u},{21,1369094286720630784u},{21,1513209474796486656u},{21,1657324662872342528u},{21,2738188573441261568u},{21,3026418949592973312u},{21,3314649325744685056u},{21,5476377146882523136u},{21,6052837899185946624u},{21,6629298651489370112u},
{22,116269519949689u},{22,123145302310912u},{22,130021084672135u},{22,175921860444160u},{22,246290604621824u},{22,351843720888320u},{22,492581209243648u},{22,703687441776640u},{22,985162418487296u},{22,1012665547932188u},{22,1026417112654634u},{22,1407374883553280u},{22,1970324836974592u},{22,2814749767106560u},{22,3940649673949184u},{22,5629499534213120u},{22,7881299347898368u},{22,9971734326144619u},{22,11258999068426240u},{22,15762598695796736u},{22,22517998136852480u},{22,31525197391593472u},{22,45035996273704960u},{22,63050394783186944u},{22,76990281912725639u},{22,90071992547409920u},{22,126100789566373888u},{22,180143985094819840u},{22,252201579132747776u},{22,360287970189639680u},{22,504403158265495552u},{22,720575940379279360u},{22,1008806316530991104u},{22,1021888027165675385u},{22,1034969737800359666u},{22,1441151880758558720u},{22,2017612633061982208u},{22,2882303761517117440u},{22,4035225266123964416u},{22,5764607523034234880u},{22,8070450532247928832u},{22,9197208615585407246u},{22,9249535458124144370u},
{23,103286079491637u},{23,104016867737708u},{23,104747655983779u},{23,113965147156507u},{23,140737488355328u},{23,167509829554149u},{23,194282170752970u},{23,227930294313014u},{23,254702635511835u},{23,281474976710656u},{23,308247317909477u},{23,335019659108298u},{23,509405271023670u},{23,562949953421312u},{23,616494635818954u},{23,910990389005985u},{23,911721177252056u},{23,1125899906842624u},{23,1662077519065115u},{23,2251799813685248u},{23,2895066790703023u},{23,3324155038130230u},{23,3860332650352721u},{23,4503599627370496u},{23,5146866604388271u},{23,7720665300705442u},{23,8363932277723217u},{23,9007199254740992u},{23,9650466231758767u},{23,10293733208776542u},{23,17371131532464209u},{23,18014398509481984u},{23,18657665486499759u},{23,36028797018963968u},{23,47823973699612699u},{23,72057594037927936u},{23,95647947399225398u},{23,100794083215367598u},{23,103583522217767479u},{23,106156590125838579u},{23,108729658033909679u},{23,144115188075855872u},{23,204377605433135077u},{23,288230376151711744u},{23,395673500231585873u},{23,408755210866270154u},{23,576460752303423488u},{23,804428711097856027u},{23,872626703273677313u},{23,898790124543045875u},{23,924953545812414437u},{23,951116967081782999u},{23,977280388351151561u},{23,1152921504606846976u},{23,1380889463401279515u},{23,1608857422195712054u},{23,1849907091624828874u},{23,2305843009213693952u},{23,2761778926802559030u},{23,4611686018427387904u},{23,6233625151257784239u},{23,8513304739202109629u},{23,9223372036854775808u},{23,9933439334507441987u},
{24,101881054204734u},{24,123445084813005u},{24,133861705994105u},{24,155425736602376u},{24,182198077801197u},{24,203762108409468u},{24,332415503813023u},{24,407524216818936u},{24,536177612222491u},{24,664831007626046u},{24,686395038234317u},{24,815048433637872u},{24,943701829041427u},{24,1072355224444982u},{24,1201008619848537u},{24,1329662015252092u},{24,2402017239697074u},{24,2530670635100629u},{24,2659324030504184u},{24,10122682540402516u},{24,10379989331209626u},{24,10637296122016736u},{24,11795176680648731u},{24,12309790262262951u},{24,23590353361297462u},{24,24619580524525902u},{24,35642836832753303u},{24,36672063995981743u},{24,60262417357279205u},{24,84367384300190887u},{24,89513520116333087u},{24,94361413445189848u},{24,98478322098103608u},{24,107443124079874129u},{24,120524834714558410u},{24,155653057965697493u},{24,168734768600381774u},{24,179758024908609175u},{24,276177892680255903u},{24,420807694337725995u},{24,552355785360511806u},{24,683903876383297617u},{24,780323744154944345u},{24,841615388675451990u},{24,1104711570721023612u},{24,1166003215241531257u},{24,1367807752766595234u},{24,1560647488309888690u},{24,1621939132830396335u},{24,2209423141442047224u},{24,3182586621140285025u},{24,4480137927404602093u},{24,6365173242280570050u},{24,7601432904024379473u},{24,8960275854809204186u},
{25,107089364795284u},{25,124486746931115u},{25,132820043875995u},{25,8758956549124833u},{25,9170647414416209u},{25,9582338279707585u},{25,11229101740873089u},{25,11640792606164465u},{25,12052483471455841u},{25,12464174336747217u},{25,12875865202038593u},{25,23281585212328930u},{25,24104966942911682u},{25,24928348673494434u},{25,35951604981721835u},{25,48209933885823364u},{25,60468262789924893u},{25,71903209963443670u},{25,84161538867545199u},{25,96419867771646728u},{25,108678196675748257u},{25,120936525579849786u},{25,133194854483951315u},{25,143806419926887340u},{25,156064748830988869u},{25,168323077735090398u},{25,180581406639191927u},{25,192839735543293456u},{25,287612839853774680u},{25,299871168757876209u},{25,312129497661977738u},{25,324387826566079267u},{25,336646155470180796u},{25,348904484374282325u},{25,587484008611650889u},{25,599742337515752418u},{25,612000666419853947u},{25,636517324228057005u},{25,648775653132158534u},{25,661033982036260063u},{25,1224001332839707894u},{25,1248517990647910952u},{25,1273034648456114010u},{25,1297551306264317068u},{25,1322067964072520126u},{25,2497035981295821904u},{25,2546069296912228020u},{25,2595102612528634136u},{25,3782328958656037443u},{25,3831362274272443559u},{25,5092138593824456040u},{25,6377431571184671579u},{25,7662724548544887118u},{25,9095117472754321005u},{25,9291250735219945469u},{25,9792010662717663152u},{25,9988143925183287616u},
{26,106256035100796u},{26,231576111726399u},{26,283037469887821u},{26,334498828049243u},{26,463152223452798u},{26,566074939775642u},{26,668997656098486u},{26,912035300650883u},{26,926304446905596u},{26,990163209035921u},{26,1607699506972985u},{26,1916467655941517u},{26,2328158521232893u},{26,2739849386524269u},{26,3151540251815645u},{26,4656317042465786u},{26,5479698773048538u},{26,6778630131052991u},{26,7190320996344367u},{26,8837084457509871u},{26,9312634084931572u},{26,10959397546097076u},{26,11434947173518777u},{26,13081710634684281u},{26,13557260262105982u},{26,14380641992688734u},{26,18625268169863144u},{26,22394344719615853u},{26,26638970896790263u},{26,28761283985377468u},{26,41019612889478997u},{26,53277941793580526u},{26,57522567970754936u},{26,69780896874856465u},{26,82039225778957994u},{26,94297554683059523u},{26,101835707782564941u},{26,106555883587161052u},{26,111276059391757163u},{26,115045135941509872u},{26,127303464845611401u},{26,139561793749712930u},{26,151820122653814459u},{26,230090271883019744u},{26,254606929691222802u},{26,279123587499425860u},{26,509213859382445604u},{26,727045802361363819u},{26,776079117977769935u},{26,898662407018785225u},{26,920361087532078976u},{26,942059768045372727u},{26,996729038251597457u},{26,1018427718764891208u},{26,1236259661743809423u},{26,1552158235955539870u},{26,1769990178934458085u},{26,1819023494550864201u},{26,2036855437529782416u},{26,2254687380508700631u},{26,3322148414889997955u},{26,3539980357868916170u},{26,3855878932080646617u},{26,4073710875059564832u},{26,4291542818038483047u},{26,6644296829779995910u},{26,6862128772758914125u},{26,7711757864161293234u},{26,7929589807140211449u},{26,8147421750119129664u},{26,8365253693098047879u},{26,8583085636076966094u},
{27,141612322058201u},{27,154384074484266u},{27,167155826910331u},{27,308768148968532u},{27,321539901394597u},{27,334311653820662u},{27,617536297937064u},{27,630308050363129u},{27,643079802789194u},{27,810609978156687u},{27,836153483008817u},{27,861696987860947u},{27,1235072595874128u},{27,1260616100726258u},{27,1286159605578388u},{27,2096769583735075u},{27,2521232201452516u},{27,2971238324022087u},{27,3820163559456969u},{27,4669088794891851u},{27,5942476648044174u},{27,6315852256057355u},{27,7640327118913938u},{27,8013702726927119u},{27,9338177589783702u},{27,9711553197796883u},{27,10084928805810064u},{27,11036028060653466u},{27,13956179374971293u},{27,17351880316710821u},{27,27912358749942586u},{27,40170687654044115u},{27,55824717499885172u},{27,74874448287465757u},{27,80341375308088230u},{27,89781726917280452u},{27,89950754486476593u},{27,95248653937902925u},{27,111649434999770344u},{27,155215823595553987u},{27,179732481403757045u},{27,223298869999540688u},{27,266865258595324331u},{27,353998035786891617u},{27,490164128594865019u},{27,533730517190648662u},{27,577296905786432305u},{27,707996071573783234u},{27,718929925615028180u},{27,762496314210811823u},{27,806062702806595466u},{27,1023894645785513681u},{27,1067461034381297324u},{27,1111027422977080967u},{27,1372425754551782825u},{27,1415992143147566468u},{27,2527019566124647435u},{27,2570585954720431078u},{27,2614152343316214721u},{27,2744851509103565650u},{27,2788417897699349293u},{27,2831984286295132936u},{27,5315437463823996728u},{27,5402570241015564014u},{27,5489703018207131300u},{27,5576835795398698586u},
{28,398919112865311u},{28,409136514806163u},{28,419353916747015u},{28,429571318687867u},{28,439788720628719u},{28,450006122569571u},{28,818273029612326u},{28,838707833494030u},{28,859142637375734u},{28,1263170451211471u},{28,1677415666988060u},{28,1718285274751468u},{28,2091660882764649u},{28,2132530490528057u},{28,2526340902422942u},{28,2940586118199531u},{28,3354831333976120u},{28,5052681804845884u},{28,7205647099255645u},{28,8034137530808823u},{28,8862627962362001u},{28,8944367177888817u},{28,9113394747084958u},{28,9440351609192222u},{28,9609379178388363u},{28,9936336040495627u},{28,10601348040995173u},{28,12258328904101529u},{28,16068275061617646u},{28,19049730787580585u},{28,24516657808203058u},{28,26669623102612819u},{28,32136550123235292u},{28,35946496280751409u},{28,49033315616406116u},{28,51186280910815877u},{28,64273100246470584u},{28,66426065540880345u},{28,71892992561502818u},{28,84979811897157525u},{28,89285742485977047u},{28,98066631232812232u},{28,102372561821631754u},{28,115459381157286461u},{28,128546200492941168u},{28,143785985123005636u},{28,187352373718789279u},{28,230918762314572922u},{28,274485150910356565u},{28,287571970246011272u},{28,331138358841794915u},{28,374704747437578558u},{28,548970301820713130u},{28,836542272066724402u},{28,923675049258291688u},{28,1002026937703023789u},{28,1010807826449858974u},{28,1019588715196694159u},{28,1089159714894591075u},{28,1097940603641426260u},{28,1106721492388261445u},{28,1315772546620344475u},{28,2021615652899717948u},{28,2195881207282852520u},{28,3163122645136927851u},{28,3511653753903196995u},{28,4043231305799435896u},{28,4391762414565705040u},{28,5446136629611347657u},{28,6326245290273855702u},{28,7903416168468902035u},{28,8783524829131410080u},{28,9498148824157618738u},{28,9646071712300247755u},
{29,101328454083268u},{29,104305587231107u},{29,147306762817102u},{29,167741566698806u},{29,188176370580510u},{29,236286247136931u},{29,277155854900339u},{29,335483133397612u},{29,434680019658293u},{29,571769380534543u},{29,670966266795224u},{29,770163153055905u},{29,869360039316586u},{29,910229647079994u},{29,945144988547724u},{29,1341932533590448u},{29,1441129419851129u},{29,1540326306111810u},{29,2683865067180896u},{29,2783061953441577u},{29,2882258839702258u},{29,2981455725962939u},{29,3809946157516117u},{29,5566123906883154u},{29,5764517679404516u},{29,7619892315032234u},{29,9376070064399271u},{29,9772857609441995u},{29,11132247813766308u},{29,11529035358809032u},{29,13285213108176069u},{29,15239784630064468u},{29,16995962379431505u},{29,26570426216352138u},{29,28326603965719175u},{29,32235747009495973u},{29,33991924758863010u},{29,53140852432704276u},{29,54897030182071313u},{29,56653207931438350u},{29,64471494018991946u},{29,66227671768358983u},{29,67983849517726020u},{29,102769349366674478u},{29,104525527116041515u},{29,106281704865408552u},{29,111550238113509663u},{29,113306415862876700u},{29,130699165787350929u},{29,132455343536717966u},{29,217831942978918215u},{29,219588120728285252u},{29,221344298477652289u},{29,261398331574701858u},{29,263154509324068895u},{29,264910687073435932u},{29,437420063707203467u},{29,440932419205937541u},{29,526309018648137790u},{29,702330750780639399u},{29,878352482913141008u},{29,1052618037296275580u},{29,1228639769428777189u},{29,1404661501561278798u},{29,2633301270990055987u},{29,2809323003122557596u},{29,2985344735255059205u},{29,6146711202642620019u},{29,6322732934775121628u},{29,6498754666907623237u},
{30,150541096464408u},{30,154032630611181u},{30,157524164757954u},{30,201885306668135u},{30,208868374961681u},{30,308065261222362u},{30,516933636184043u},{30,616130522444724u},{30,722310476998951u},{30,920704249520313u},{30,1033867272368086u},{30,1232261044889448u},{30,1345424067737221u},{30,1444620953997902u},{30,1954571521888399u},{30,2577685112626669u},{30,3399192475886301u},{30,3909143043776798u},{30,5665320793143835u},{30,6798384951772602u},{30,7818286087553596u},{30,8554562701139639u},{30,9574463836920633u},{30,10310740450506676u},{30,10594364972701627u},{30,11330641586287670u},{30,11840592154178167u},{30,13596769903545204u},{30,20905105423208303u},{30,22661283172575340u},{30,25437362057723371u},{30,27193539807090408u},{30,43566388595783643u},{30,45322566345150680u},{30,52630901864813779u},{30,54387079614180816u},{30,87132777191567286u},{30,88888954940934323u},{30,91834061395278495u},{30,94724737233425336u},{30,95346416894012569u},{30,98237092732159410u},{30,105261803729627558u},{30,139763679056381065u},{30,174265554383134572u},{30,210523607459255116u},{30,279527358112762130u},{30,317541588938249711u},{30,421047214918510232u},{30,597068947051011841u},{30,742101159355494017u},{30,842094429837020464u},{30,918122891487995626u},{30,942087700318546911u},{30,1018116161969522073u},{30,1194137894102023682u},{30,1370159626234525291u},{30,2036232323939044146u},{30,2212254056071545755u},{30,2388275788204047364u},{30,2916340984601552191u},{30,4952573308540596337u},{30,5128595040673097946u},{30,5304616772805599555u},{30,5832681969203104382u},{30,9905146617081192674u},
{31,106179954554227u},{31,117639649854108u},{31,131605786441200u},{31,161508245334508u},{31,223819604408335u},{31,311556795369135u},{31,436179513516789u},{31,623113590738270u},{31,634573286038151u},{31,872359027033578u},{31,883818722333459u},{31,1121604463328886u},{31,1133064158628767u},{31,1506932313071729u},{31,1767637444666918u},{31,2266128317257534u},{31,3773060630329263u},{31,4532256634515068u},{31,5789943511291489u},{31,9064513269030136u},{31,9348137791225087u},{31,9494245969821466u},{31,9823709273215941u},{31,11579887022582978u},{31,16372848788693235u},{31,18129026538060272u},{31,27952735811276213u},{31,36258053076120544u},{31,55905471622552426u},{31,73796712419617271u},{31,107017981478994595u},{31,111810943245104852u},{31,218828924724099447u},{31,223621886490209704u},{31,442450811214309151u},{31,708879890296116693u},{31,884901622428618302u},{31,1051337431028899397u},{31,1060923354561119911u},{31,1070509278093340425u},{31,1769803244857236604u},{31,2121846709122239822u},{31,3001955369784747867u},{31,4243693418244479644u},{31,7245648788029227511u},{31,9357909573619246819u},{31,9524345382219527914u},{31,9690781190819809009u},
{32,100987537063215u},{32,105284629152960u},{32,109581721242705u},{32,112447232363096u},{32,124622718147654u},{32,179055683526668u},{32,222028953605801u},{32,249245436295308u},{32,358111367053336u},{32,401084637132469u},{32,498490872590616u},{32,650330073427777u},{32,802169274264938u},{32,931089084502337u},{32,956873986222490u},{32,996981745181232u},{32,1062874405860127u},{32,1366552807534449u},{32,1604338548529876u},{32,2059856151041359u},{32,2667212954390003u},{32,3274569757738647u},{32,4185604962761613u},{32,5334425908780006u},{32,6549139515477294u},{32,8305317264844331u},{32,8371209925523226u},{32,10734744478238907u},{32,13098279030954588u},{32,16676527190367557u},{32,21403596295798919u},{32,26196558061909176u},{32,42807192591597838u},{32,47600154357708095u},{32,85614385183195676u},{32,90407346949305933u},{32,104786232247636704u},{32,109315623371031381u},{32,114108585137141638u},{32,137941608646335133u},{32,180814693898611866u},{32,214101855618668085u},{32,428203711237336170u},{32,461490872957392389u},{32,922981745914784778u},{32,937097060570399969u},{32,947210125388051643u},{32,970384222290456188u},{32,980497287108107862u},
{33,9467316742998503u},{33,9493673807270061u},{33,9520030871541619u},{33,9546387935813177u},{33,14247099976972981u},{33,14299814105516097u},{33,19040061743083238u},{33,38080123486166476u},{33,42820371123733617u},{33,52353580527411015u},{33,61834075802545297u},{33,85640742247467234u},{33,95015809265515284u},{33,95437522293860212u},{33,99650628645996193u},{33,123668151605090594u},{33,137994322774878249u},{33,171281484494934468u},{33,342562968989868936u},{33,756335080800331219u},{33,1470113361119644401u},{33,4153312428359445269u},{33,4219886751799557707u},{33,6246612223399196013u},{33,6379760870279420889u},{33,8306624856718890538u},{33,8439773503599115414u},
{34,145307151024412u},{34,1888191935745389u},{34,1914549000016947u},{34,2838877169685973u},{34,6667975169719867u},{34,8542988573329477u},{34,9375067018048050u},{34,9585923532220514u},{34,9796780046392978u},{34,10470716105482203u},{34,13335950339439734u},{34,16201184573397265u},{34,17085977146658954u},{34,20941432210964406u},{34,23806666444921937u},{34,41882864421928812u},{34,69439557674069969u},{34,83765728843857624u},{34,94131016692253595u},{34,95226665779687748u},{34,105591953628083719u},{34,117052890563913843u},{34,138879115348139938u},{34,267392942847883905u},{34,790717891607821591u},{34,857292215047934029u},{34,923866538488046467u},{34,1069571771391535620u},{34,1136146094831648058u},{34,1302581903431929153u},{34,1714584430095868058u},{34,2126586956759806963u},{34,6313186546839308451u},{34,7961196653495064071u},{34,9850390881864740889u},{34,9875504053911269443u},{34,9900617225957797997u},{34,9925730398004326551u},
{35,102884096667301u},{35,105885987127356u},{35,110974307965218u},{35,116062628803080u},{35,126697000519928u},{35,361824148586143u},{35,388181212857701u},{35,414538277129259u},{35,536146956811325u},{35,588861085354441u},{35,776362425715402u},{35,937506701804805u},{35,966865656536418u},{35,984217049427811u},{35,996224611268031u},{35,1312509382526727u},{35,1552724851430804u},{35,1687512063248649u},{35,1875013403609610u},{35,2490231553235609u},{35,3240236914679453u},{35,4980463106471218u},{35,5115250318289063u},{35,6480473829358906u},{35,8595702701872593u},{35,9960926212942436u},{35,11595724147647969u},{35,12960947658717812u},{35,18826203338450719u},{35,23191448295295938u},{35,37652406676901438u},{35,44748098655886343u},{35,53478588569576781u},{35,73670015419097343u},{35,91130995246478219u},{35,106957177139153562u},{35,108591975073859095u},{35,131513848945519343u},{35,198088172385631781u},{35,213914354278307124u},{35,263027697891038686u},{35,313775839438475781u},{35,345428203223826467u},{35,396176344771263562u},{35,427828708556614248u},{35,478576850104051343u},{35,576803537329514467u},{35,741604547995090029u},{35,906405558660665591u},{35,963171094492544831u},{35,1153607074659028934u},{35,1483209095990180058u},{35,1812811117321331182u},{35,2307214149318057868u},{35,2966418191980360116u},{35,3511569365524523897u},{35,3625622234642662364u},{35,3841171386855675021u},{35,5159579472180279517u},{35,6477987557504884013u},{35,7682342773711350042u},{35,8455599685491790757u},
{36,107229391362265u},{36,134186833725834u},{36,187501340360961u},{36,214458782724530u},{36,241416225088099u},{36,375002680721922u},{36,401960123085491u},{36,428917565449060u},{36,750005361443844u},{36,776962803807413u},{36,803920246170982u},{36,1500010722887688u},{36,2865234233957531u},{36,2919149118684669u},{36,4311330072118081u},{36,5730468467915062u},{36,5838298237369338u},{36,7203521748439181u},{36,8622660144236162u},{36,10041798540033143u},{36,10257458078941695u},{36,11460936935830124u},{36,11676596474738676u},{36,14407043496878362u},{36,21718395014771819u},{36,33287161720056219u},{36,38963715303244143u},{36,43436790029543638u},{36,56424695130625019u},{36,97364049069828916u},{36,97885846524208903u},{36,99771006783605774u},{36,102699761951762619u},{36,319452393021663705u},{36,339751649640638543u},{36,484253403687239267u},{36,679503299281277086u},{36,813855425018390391u},{36,895052451494289743u},{36,968506807374478534u},{36,1123158189730566677u},{36,1204355216206466029u},{36,1359006598562554172u},{36,1513657980918642315u},{36,8846099476679866395u},{36,9155402241392042681u},{36,9464705006104218967u},{36,9774007770816395253u},
{37,112740955453381u},{37,122563327451591u},{37,139698397816950u},{37,149520769815160u},{37,171567026179624u},{37,198524468543193u},{37,343134052359248u},{37,551480892900651u},{37,686268104718496u},{37,840700060532761u},{37,948529829987037u},{37,1056359599441313u},{37,1102961785801302u},{37,1681400121065522u},{37,2051491615788339u},{37,3208368286316779u},{37,4102983231576678u},{37,5522121627373659u},{37,9808787608233198u},{37,9840764397858889u},{37,9872741187484580u},{37,9904717977110271u},{37,17615411783195141u},{37,28659655037942459u},{37,35230823566390282u},{37,63890478604332741u},{37,80611275442267983u},{37,87182443970715806u},{37,93753612499163629u},{37,121209788680217659u},{37,127780957208665482u},{37,134352125737113305u},{37,255561914417330964u},{37,302731596183728463u},{37,356472446478573785u},{37,605463192367456926u},{37,712944892957147570u},{37,867596275313235713u},{37,1022247657669323856u},{37,1056275002378825709u},{37,1176899040025411999u},{37,1210926384734913852u},{37,1769219895335973279u},{37,2078522660048149565u},{37,2885806916538092133u},{37,3538439790671946558u},{37,4809678194230153555u},{37,5771613833076184266u},{37,8348117984902100113u},{37,9619356388460307110u},{37,9863661126080139299u},{37,9931715815499143005u},{37,9999770504918146711u},
{38,103900820654992u},{38,111758718253560u},{38,119616615852128u},{38,146574058215697u},{38,177460449378550u},{38,208346840541403u},{38,262261725268541u},{38,293148116431394u},{38,324034507594247u},{38,493637059374229u},{38,524523450537082u},{38,555409841699935u},{38,987274118748458u},{38,1758343499356945u},{38,1820116281682651u},{38,1881889064008357u},{38,2683844835779697u},{38,2807390400431109u},{38,3640232563365302u},{38,3763778128016714u},{38,4534847508625201u},{38,5614780800862218u},{38,6447622963796411u},{38,8483943983619033u},{38,9069695017250402u},{38,10149628309487419u},{38,12895245927592822u},{38,13975179219829839u},{38,20299256618974838u},{38,21379189911211855u},{38,26870425147422661u},{38,41678446530186693u},{38,53740850294845322u},{38,71294489295714757u},{38,83356893060373386u},{38,95419296825032015u},{38,107481700589690644u},{38,117384237769875239u},{38,119544104354349273u},{38,142588978591429514u},{38,166713786120746772u},{38,285177957182859028u},{38,367454916950995397u},{38,415704532009629913u},{38,570355914365718056u},{38,700882489192488941u},{38,831409064019259826u},{38,981740713206399901u},{38,992906321228872955u},{38,993436841870955646u},{38,1140711828731436112u},{38,1401764978384977882u},{38,1662818128038519652u},{38,2054397852518832307u},{38,2576504151825915847u},{38,3325636256077039304u},{38,3847742555384122844u},{38,4108795705037664614u},{38,5902140407902955151u},{38,7695485110768245688u},{38,8217591410075329228u},{38,8966723514326452685u},{38,9556884503052539931u},{38,9715855618577576142u},
{39,111081968339987u},{39,141968359502840u},{39,172854750665693u},{39,222163936679974u},{39,289895917545683u},{39,351668699871389u},{39,444327873359948u},{39,512059854225657u},{39,635605418877069u},{39,703337399742778u},{39,820923765854187u},{39,888655746719896u},{39,956387727585605u},{39,1024119708451314u},{39,1271210837754138u},{39,1338942818619847u},{39,1406674799485556u},{39,1597952345002677u},{39,1912775455171210u},{39,2363062527071161u},{39,4275837982242371u},{39,5806058346379339u},{39,6571168528447823u},{39,7471742672247725u},{39,8551675964484742u},{39,10532183400521661u},{39,11612116692758678u},{39,17103351928969484u},{39,19083859365006403u},{39,21064366801043322u},{39,36187211293975887u},{39,38167718730012806u},{39,40148226166049725u},{39,50230122494671435u},{39,54191137366745273u},{39,76335437460025612u},{39,80296452332099450u},{39,98121019256431721u},{39,98651539898514412u},{39,99025371801845950u},{39,99555892443928641u},{39,99929724347260179u},{39,234947834688187593u},{39,287158464618895947u},{39,339369094549604301u},{39,469895669376375186u},{39,574316929237791894u},{39,678738189099208602u},{39,817186793670127163u},{39,853553364112540165u},{39,939791338752750372u},{39,1062395883835373581u},{39,1148633858475583788u},{39,1271238403558206997u},{39,1357476378198417204u},{39,1480080923281040413u},{39,1793344702865290537u},{39,2211029742310957369u},{39,2628714781756624201u},{39,3586689405730581074u},{39,4422059484621914738u},{39,5588876628318705027u},{39,7173378811461162148u},{39,8844118969243829476u},
{40,113574687602272u},{40,129504763191415u},{40,149446517289695u},{40,191277545517121u},{40,294881356070253u},{40,346683261346819u},{40,382555091034242u},{40,693366522693638u},{40,729238352381061u},{40,765110182068484u},{40,800982011755907u},{40,1143653594593589u},{40,1179525424281012u},{40,1215397253968435u},{40,1494348534449545u},{40,1530220364136968u},{40,2988697068899090u},{40,3024568898586513u},{40,6049137797173026u},{40,8029645233209945u},{40,9859108547268518u},{40,9902537180184595u},{40,10046024498934287u},{40,16059290466419890u},{40,20092048997868574u},{40,32118580932839780u},{40,34170832028251545u},{40,40184097995737148u},{40,64237161865679560u},{40,78315944896062531u},{40,80368195991474296u},{40,90342476831033737u},{40,118500042891799679u},{40,128474323731359120u},{40,146657608952565621u},{40,156631889792125062u},{40,170710672822508033u},{40,237000085783599358u},{40,313263779584250124u},{40,341421345645016066u},{40,682842691290032132u},{40,1054186879453726521u},{40,1120476292414817846u},{40,1186765705375909171u},{40,2002187222588123953u},{40,2970136127401640267u},{40,4004374445176247906u},{40,5940272254803280534u},{40,8008748890352495812u},
{41,103603810553132u},{41,119557213831756u},{41,131498938601243u},{41,167370768288666u},{41,207207621106264u},{41,243079450793687u},{41,262997877202486u},{41,298869706889909u},{41,334741536577332u},{41,486158901587374u},{41,561867584092395u},{41,597739413779818u},{41,633611243467241u},{41,972317803174748u},{41,988551138727144u},{41,991956297309775u},{41,1195478827559636u},{41,1605929046641989u},{41,1980507436036919u},{41,2390957655119272u},{41,2801407874201625u},{41,3622308312366331u},{41,4371465091156191u},{41,4781915310238544u},{41,5192365529320897u},{41,6834166405650309u},{41,7244616624732662u},{41,7655066843815015u},{41,7922029744147676u},{41,8619454600729413u},{41,8742930182312382u},{41,9440355038894119u},{41,9563830620477088u},{41,11205631496806500u},{41,12026531934971206u},{41,12847432373135912u},{41,13668332811300618u},{41,14489233249465324u},{41,15310133687630030u},{41,24053063869942412u},{41,25694864746271824u},{41,27336665622601236u},{41,38131846900325383u},{41,41415448652984207u},{41,51389729492543648u},{41,54673331245202472u},{41,76263693800650766u},{41,89521576392869031u},{41,102779458985087296u},{41,109346662490404944u},{41,116037341577305561u},{41,848627961483551929u},{41,901659491852424989u},{41,954691022221298049u},{41,1034238317774607639u},{41,1140301378512353759u},{41,1909382044442596098u},{41,2068476635549215278u},{41,2837557301479457617u},{41,3049683422954949857u},{41,4136953271098430556u},{41,4906033937028672895u},{41,6099366845909899714u},{41,6868447511840142053u},{41,8273906542196861112u},{41,8618734965176118971u},{41,9467239451078087931u},{41,9812067874057345790u},
{42,112373516818479u},{42,148245346505902u},{42,187289194697465u},{42,224747033636958u},{42,335534541203367u},{42,374578389394930u},{42,449494067273916u},{42,560281574840325u},{42,671069082406734u},{42,898988134547832u},{42,931687945731115u},{42,964387756914398u},{42,1120563149680650u},{42,1531013368763003u},{42,2241126299361300u},{42,3062026737526006u},{42,3472476956608359u},{42,4482252598722600u},{42,6124053475052012u},{42,6312928679001547u},{42,6944953913216718u},{42,8964505197445200u},{42,9596530431660371u},{42,11616081715888853u},{42,12248106950104024u},{42,50379953850429407u},{42,55683106887316713u},{42,60986259924204019u},{42,100083940487742665u},{42,100207416069325634u},{42,100330891650908603u},{42,100759907700858814u},{42,111366213774633426u},{42,121972519848408038u},{42,811505890225340787u},{42,896356338815537683u},{42,981206787405734579u},{42,1066057235995931475u},{42,1962413574811469158u},{42,2132114471991862950u},{42,2986045586512302185u},{42,3924827149622938316u},{42,5118160058504165135u},{42,5972091173024604370u},{42,7849654299245876632u},{42,9042987208127103451u},
{43,109518700164753u},{43,112056314968065u},{43,114593929771377u},{43,147293740954660u},{43,149831355757972u},{43,186337589146223u},{43,224112629936130u},{43,261887670726037u},{43,299662711515944u},{43,334900137502539u},{43,372675178292446u},{43,410450219082353u},{43,448225259872260u},{43,486000300662167u},{43,523775341452074u},{43,669800275005078u},{43,745350356584892u},{43,820900438164706u},{43,896450519744520u},{43,972000601324334u},{43,1047550682904148u},{43,1123100764483962u},{43,1198650846063776u},{43,1792901039489040u},{43,3585802078978080u},{43,4368927476352879u},{43,6086278434262105u},{43,7171604157956160u},{43,8737854952705758u},{43,9823180676399813u},{43,10031200073736752u},{43,13257882592218265u},{43,18561035629105571u},{43,26515765184436530u},{43,37122071258211142u},{43,53031530368873060u},{43,74244142516422284u},{43,106063060737746120u},{43,107148386461440175u},{43,148488285032844568u},{43,149573610756538623u},{43,213211447199186295u},{43,298061895789383191u},{43,299147221513077246u},{43,426422894398372590u},{43,597209117302460437u},{43,682059565892657333u},{43,852845788796745180u},{43,1021461360253444917u},{43,1023632011700833027u},{43,1025802663148221137u},{43,1192247583157532764u},{43,1194418234604920874u},{43,1196588886052308984u},{43,1705691577593490360u},{43,2047264023401666054u},{43,2388836469209841748u},{43,4094528046803332108u},{43,4777672938419683496u},{43,6654150738917261703u},{43,9555345876839366992u},
{44,108249892763097u},{44,108815251975714u},{44,117834992763728u},{44,169705003948273u},{44,179290103948904u},{44,188875203949535u},{44,245255085528087u},{44,292615226318625u},{44,358580207897808u},{44,424545189476991u},{44,717160415795616u},{44,934225560534427u},{44,1001269247311128u},{44,1001860613137603u},{44,1002451978964078u},{44,1003043344790553u},{44,1217255686852421u},{44,1434320831591232u},{44,1651385976330043u},{44,1868451121068854u},{44,2217446228966031u},{44,2434511373704842u},{44,2651576518443653u},{44,2868641663182464u},{44,3085706807921275u},{44,3302771952660086u},{44,4434892457932062u},{44,4651957602670873u},{44,4869022747409684u},{44,5520218181626117u},{44,5737283326364928u},{44,5954348471103739u},{44,8218589481647691u},{44,8435654626386502u},{44,8652719771125313u},{44,10172175784296990u},{44,10389240929035801u},{44,10606306073774612u},{44,10823371218513423u},{44,11040436363252234u},{44,11257501507991045u},{44,20344351568593980u},{44,20561416713332791u},{44,20778481858071602u},{44,21429677292288035u},{44,21646742437026846u},{44,21863807581765657u},{44,41774028860882015u},{44,41991094005620826u},{44,42208159150359637u},{44,42859354584576070u},{44,43076419729314881u},{44,43293484874053692u},{44,83330992577025219u},{44,83548057721764030u},{44,83765122866502841u},{44,85501644024413329u},{44,85718709169152140u},{44,85935774313890951u},{44,169700897180393792u},{44,170135027469871414u},{44,170569157759349036u},{44,171003288048826658u},{44,171437418338304280u},{44,340270054939742828u},{44,341138315518698072u},{44,342006576097653316u},{44,511490408133308297u},{44,512358668712263541u},{44,682276631037396144u},{44,852628723652006369u},{44,1007352125845422202u},{44,1009088647003332690u},{44,1010825168161243178u},{44,1024717337424527082u},{44,1026453858582437570u},{44,1028190379740348058u},{44,1364553262074792288u},{44,1536641875847313001u},{44,1705257447304012738u},{44,1877346061076533451u},{44,2729106524149584576u},{44,2901195137922105289u},{44,3582603508380546189u},{44,3754692122153066902u},{44,4948893291613248965u},{44,8018704000992053991u},{44,8700112371450494891u},{44,9388466826540577743u},{44,9897786583226497930u},
{45,100203587314235u},{45,100321860479530u},{45,117046090527450u},{45,134073126843539u},{45,151100163159628u},{45,234092181054900u},{45,383049180529355u},{45,617141361584255u},{45,881001287900987u},{45,936368724219600u},{45,1017217578429699u},{45,1234282723168510u},{45,1451347867907321u},{45,1817370012120587u},{45,2034435156859398u},{45,2251500301598209u},{45,2468565446337020u},{45,2685630591075831u},{45,3634740024241174u},{45,3851805168979985u},{45,4068870313718796u},{45,4285935458457607u},{45,4503000603196418u},{45,4720065747935229u},{45,7052414903743537u},{45,7269480048482348u},{45,7486545193221159u},{45,8571870916915214u},{45,8788936061654025u},{45,9006001206392836u},{45,10091326930086891u},{45,16275481254875184u},{45,16492546399613995u},{45,16709611544352806u},{45,17143741833830428u},{45,17360806978569239u},{45,17577872123308050u},{45,33419223088705612u},{45,33853353378183234u},{45,34287483667660856u},{45,34721613957138478u},{45,67706706756366468u},{45,68574967335321712u},{45,100040604121378025u},{45,100908864700333269u},{45,101777125279288513u},{45,102645385858243757u},{45,103079516147721379u},{45,137149934670643424u},{45,171220353193565469u},{45,238492929660454315u},{45,306633766706298405u},{45,374774603752142495u},{45,476985859320908630u},{45,649074473093429343u},{45,785356147185117523u},{45,918164778960984727u},{45,953971718641817260u},{45,989778658322649793u},{45,1262342006506026153u},{45,1534905354689402513u},{45,1979557316645299586u},{45,2524684013012052306u},{45,3105617649059637559u},{45,3378180997243013919u},{45,3959114633290599172u},{45,5630301662071689865u},{45,6211235298119275118u},{45,6756361994486027838u},{45,7918229266581198344u},{45,8427549023267118531u},{45,9589416295362289037u},
{46,123428272316851u},{46,153219672211742u},{46,187273744843920u},{46,246856544633702u},{46,306439344423484u},{46,493713089267404u},{46,770361033795997u},{46,987426178534808u},{46,1204491323273619u},{46,1323656922853183u},{46,1540722067591994u},{46,1757787212330805u},{46,1974852357069616u},{46,2191917501808427u},{46,2864378990445177u},{46,3081444135183988u},{46,3298509279922799u},{46,3515574424661610u},{46,3732639569400421u},{46,3949704714139232u},{46,6597018559845598u},{46,7031148849323220u},{46,7465279138800842u},{46,10070060875666574u},{46,10202061802724117u},{46,10240189311029110u},{46,13194037119691196u},{46,14062297698646440u},{46,20008120824275605u},{46,47698585932090863u},{46,61326753341259681u},{46,74954920750428499u},{46,85242046770833884u},{46,86846567001686829u},{46,93792651633328781u},{46,95397171864181726u},{46,122653506682519362u},{46,149909841500856998u},{46,190794343728363452u},{46,245307013365038724u},{46,299819683001713996u},{46,381588687456726904u},{46,689958975320935797u},{46,763177374913453808u},{46,908009653867636885u},{46,1126060332414337973u},{46,1453136350234389605u},{46,1816019307735273770u},{46,2252120664828675946u},{46,4504241329657351892u},{46,9008482659314703784u},{46,9807466973908990125u},
{47,105562894233140u},{47,111502250505671u},{47,120889592380926u},{47,126828948653457u},{47,149818995875136u},{47,201738446591025u},{47,232391842886597u},{47,253657897306914u},{47,299637991750272u},{47,351557442466161u},{47,403476893182050u},{47,703114884932322u},{47,920180029671133u},{47,1005244247352401u},{47,1014631589227656u},{47,1024018931102911u},{47,1406229769864644u},{47,1727133816035233u},{47,1840360059342266u},{47,2812459539729288u},{47,3133363585899877u},{47,3680720118684532u},{47,4001624164855121u},{47,5624919079458576u},{47,5945823125629165u},{47,7682344283539653u},{47,8003248329710242u},{47,11249838158917152u},{47,11570742205087741u},{47,15685592613249895u},{47,16006496659420484u},{47,22499676317834304u},{47,22820580364004893u},{47,31692089272670379u},{47,32012993318840968u},{47,45320256681839197u},{47,45641160728009786u},{47,63384178545340758u},{47,63705082591511347u},{47,90319609317507805u},{47,90640513363678394u},{47,90961417409848983u},{47,91282321456019572u},{47,126768357090681516u},{47,127089261136852105u},{47,127410165183022694u},{47,127731069229193283u},{47,181601930773527377u},{47,181922834819697966u},{47,254178522273704210u},{47,254499426319874799u},{47,290627270046877921u},{47,363203861547054754u},{47,435780453047231587u},{47,508357044547408420u},{47,581254540093755842u},{47,726407723094109508u},{47,871560906094463174u},{47,1015430472910134484u},{47,1016714089094816840u},{47,1017997705279499196u},{47,1019281321464181552u},{47,1162509080187511684u},{47,1452815446188219016u},{47,1671187028781090693u},{47,1961493394781798025u},{47,2325018160375023368u},{47,2905630892376438032u},{47,3414308840970017041u},{47,3922986789563596050u},{47,6828617681940034082u},{47,7337295630533613091u},{47,7845973579127192100u},{47,8354651527720771109u},{47,8791394692906514463u},{47,9300072641500093472u},
{48,100697866976432u},{48,101347530761971u},{48,102575335351483u},{48,159513288897769u},{48,161390757272820u},{48,163268225647871u},{48,217065144738811u},{48,322781514545640u},{48,326536451295742u},{48,434130289477622u},{48,543601596034553u},{48,755034335648211u},{48,868260578955244u},{48,970222012011971u},{48,1189164625125833u},{48,1408107238239695u},{48,2057425204081077u},{48,2378329250251666u},{48,3137118522649979u},{48,4435754454332743u},{48,4756658500503332u},{48,6274237045299958u},{48,8871508908665486u},{48,9192412954836075u},{48,9513317001006664u},{48,12227570044429327u},{48,12548474090599916u},{48,12869378136770505u},{48,18063921863501561u},{48,18384825909672150u},{48,25417852227370421u},{48,36127843727003122u},{48,36448747773173711u},{48,50835704454740842u},{48,57868730772439113u},{48,72897495546347422u},{48,87284452227914553u},{48,100387792724799328u},{48,101029600817140506u},{48,101671408909481684u},{48,102313217001822862u},{48,102955025094164040u},{48,103596833186505218u},{48,174568904455829106u},{48,188955861137396237u},{48,203342817818963368u},{48,377911722274792474u},{48,392298678956359605u},{48,406685635637926736u},{48,770210401231152079u},{48,784597357912719210u},{48,798984314594286341u},{48,945421113779322363u},{48,974195027142456625u},{48,1031742853868725149u},{48,1060516767231859411u},{48,1569194715825438420u},{48,2629711483057297831u},{48,3138389431650876840u},{48,5768100914708174671u},{48,6276778863301753680u},{48,6843004638621601213u},{48,7860360535808759231u},{48,8877716432995917249u},{48,9895072330183075267u},
{49,105716369806829u},{49,129112605818256u},{49,152508841829683u},{49,258225211636512u},{49,281621447647939u},{49,305017683659366u},{49,539846659284451u},{49,563242895295878u},{49,711996800375459u},{49,758789272398313u},{49,1079693318568902u},{49,1126485790591756u},{49,1838482590967215u},{49,2573875627354101u},{49,3676965181934430u},{49,5147751254708202u},{49,7353930363868860u},{49,9974598463245815u},{49,10028034193258058u},{49,10242066779404161u},{49,10295502509416404u},{49,10348938239428647u},{49,11445384536019587u},{49,14707860727737720u},{49,17328528827114675u},{49,32036389554852395u},{49,64072779109704790u},{49,78459735791271921u},{49,84984688174708187u},{49,91563076288156696u},{49,95467360572216007u},{49,99371644856275318u},{49,128145558219409580u},{49,142532514900976711u},{49,156919471582543842u},{49,194839005428491325u},{49,223612918791625587u},{49,313838943165087684u},{49,537451861956713271u},{49,627677886330175368u},{49,746677824066771727u},{49,927129872813695921u},{49,1074903723913426542u},{49,1255355772660350736u},{49,2182485645474046657u},{49,2510711545320701472u},{49,3019389493914280481u},{49,3675841293607590111u},{49,5021423090641402944u},{49,6038778987828560962u},{49,7351682587215180222u},{49,8040812584555683425u},{49,9353716183942302685u},
{50,101961433056727u},{50,109297983454768u},{50,117327826261461u},{50,125357669068154u},{50,133040865670521u},{50,179833337693375u},{50,187863180500068u},{50,234655652522922u},{50,266081731341042u},{50,367696518193443u},{50,469311305045844u},{50,477341147852537u},{50,633778249534485u},{50,735393036386886u},{50,837007823239287u},{50,1008118025717317u},{50,1024177711330703u},{50,1040237396944089u},{50,1149882026603183u},{50,1470786072773772u},{50,1994919692649163u},{50,2417438525672153u},{50,2941572145547544u},{50,3465705765422935u},{50,3989839385298326u},{50,4310743431468915u},{50,4834877051344306u},{50,5359010671219697u},{50,6931411530845870u},{50,7455545150721261u},{50,7979678770596652u},{50,8621486862937830u},{50,8910271537881647u},{50,9669754102688612u},{50,9958538777632429u},{50,10718021342439394u},{50,11766288582190176u},{50,12814555821940958u},{50,13862823061691740u},{50,14911090301442522u},{50,15959357541193304u},{50,23532577164380352u},{50,25629111643881916u},{50,27725646123383480u},{50,38967801085698265u},{50,51258223287763832u},{50,63548645489829399u},{50,69838248928334091u},{50,77935602171396530u},{50,86032955414458969u},{50,94419093332465225u},{50,102516446575527664u},{50,118999937736596359u},{50,127097290979658798u},{50,155871204342793060u},{50,172354695503861755u},{50,221516384312124023u},{50,237999875473192718u},{50,311742408685586120u},{50,377387588654917083u},{50,443032768624248046u},{50,590806619723978667u},{50,722096979662640593u},{50,1017355897187158018u},{50,1050034094834351591u},{50,1083001077156488981u},{50,1345581797033812833u},{50,1608162516911136685u},{50,1870743236788460537u},{50,2133323956665784389u},{50,2691163594067625666u},{50,3216325033822273370u},{50,3741486473576921074u},{50,5218358630549395833u},{50,6432650067644546740u},{50,7482972947153842148u},{50,7646941504739697647u},{50,9222425824003640759u},{50,9550362939175351757u},
{51,104052706304122u},{51,105104040938539u},{51,109644629659094u},{51,126755649906897u},{51,143866670154700u},{51,253511299813794u},{51,270622320061597u},{51,507022599627588u},{51,693141153084587u},{51,862148686293783u},{51,930592767284995u},{51,1386282306169174u},{51,1538178819130567u},{51,1724297372587566u},{51,2772564612338348u},{51,2924461125299741u},{51,3448594745175132u},{51,4344965471964521u},{51,5545129224676696u},{51,6897189490350264u},{51,7793560217139653u},{51,8689930943929042u},{51,10193887722564003u},{51,11090258449353392u},{51,11986629176142781u},{51,15587120434279306u},{51,18883818666493045u},{51,22180516898706784u},{51,25477215130920523u},{51,27877542636344873u},{51,31174240868558612u},{51,34470939100772351u},{51,37767637332986090u},{51,41064335565199829u},{51,55755085272689746u},{51,62348481737117224u},{51,68941878201544702u},{51,75535274665972180u},{51,101331291173794458u},{51,101620075848738275u},{51,101908860523682092u},{51,124696963474234448u},{51,137883756403089404u},{51,183748746979137933u},{51,196935539907992889u},{51,249393926948468896u},{51,321632503382227337u},{51,393871079815985778u},{51,571026430330696233u},{51,643265006764454674u},{51,715503583198213115u},{51,872589959644697319u},{51,958592898357198350u},{51,978084303075536967u},{51,997575707793875584u},{51,1286530013528909348u},{51,2264614316604446315u},{51,2573060027057818696u},{51,4837674343662265011u},{51,5146120054115637392u},{51,9675348687324530022u},{51,9983794397777902403u},
{52,115093336123760u},{52,124939414418675u},{52,159161454914281u},{52,186118553456999u},{52,435997382294349u},{52,524133619875391u},{52,808234489208347u},{52,871994764588698u},{52,1048267239750782u},{52,1112027515131133u},{52,1288299990293217u},{52,2576599980586434u},{52,2816632731128869u},{52,3776763733298609u},{52,4736894735468349u},{52,7553527466597218u},{52,10017615247401919u},{52,10306399922345736u},{52,10561441023867140u},{52,15107054933194436u},{52,20324015169747655u},{52,30214109866388872u},{52,42024466567369569u},{52,59051783504903485u},{52,60428219732777744u},{52,82672496906864879u},{52,84048933134739138u},{52,90353544924222799u},{52,93106417379971317u},{52,95859289835719835u},{52,98612162291468353u},{52,143100716639642623u},{52,261204283649449593u},{52,286201433279285246u},{52,452922863320889263u},{52,572402866558570492u},{52,905845726641778526u},{52,975331430619788449u},{52,1144805733117140984u},{52,1214291437095150907u},{52,1811691453283557052u},{52,2120137163736929433u},{52,4240274327473858866u},{52,5026640050877956163u},{52,8480548654947717732u},{52,9266914378351815029u},
{53,107828394170872u},{53,115705256806804u},{53,124327493735631u},{53,132204356371563u},{53,136142787689529u},{53,151896512961393u},{53,184149337798016u},{53,199903063069880u},{53,232155887906503u},{53,247909613178367u},{53,336045850759409u},{53,432058950976383u},{53,528072051193357u},{53,672091701518818u},{53,864117901952766u},{53,1023891277550091u},{53,1056144102386714u},{53,1344183403037636u},{53,1568462428308207u},{53,1728235803905532u},{53,1952514829176103u},{53,2112288204773428u},{53,2528593430477947u},{53,3296698232213739u},{53,4064803033949531u},{53,5216960236553219u},{53,6593396464427478u},{53,8129606067899062u},{53,8737937494037529u},{53,9057484245232179u},{53,11810356700980697u},{53,13186792928854956u},{53,16259212135798124u},{53,19171857967143967u},{53,23620713401961394u},{53,28069568836778821u},{53,32518424271596248u},{53,38343715934287934u},{53,47241426803922788u},{53,56139137673557642u},{53,63340865564123587u},{53,76687431868575868u},{53,78383414847644777u},{53,92786870628776667u},{53,94482853607845576u},{53,110582292368046375u},{53,128377714107316083u},{53,153374863737151736u},{53,187269724236622243u},{53,222860567715161659u},{53,256755428214632166u},{53,513510856429264332u},{53,547405716928734839u},{53,1027021712858528664u},{53,1060916573357999171u},{53,1094811433857469678u},{53,1471046865309783073u},{53,1538836586308724087u},{53,1606626307307665101u},{53,2291307449213350877u},{53,2426886891211232905u},{53,3077673172617448174u},{53,3213252614615330202u},{53,3864038896021545471u},{53,5504560063828681079u},{53,7077291510636875673u},{53,7728077792043090942u},{53,8650022957445070267u},{53,9165229796853403508u},{53,9707547564844931620u},{53,9816016078259618777u},
{54,127967775336439u},{54,159922450455904u},{54,223980875553413u},{54,255935550672878u},{54,447961751106826u},{54,863968827094187u},{54,895923502213652u},{54,927878177333117u},{54,2912645831345843u},{54,2976555181584773u},{54,4384946084578497u},{54,5825291662691686u},{54,5953110363169546u},{54,7329546591043805u},{54,8769892169156994u},{54,10210237747270183u},{54,10465875148225903u},{54,11650583325383372u},{54,11906220726339092u},{54,13346566304452281u},{54,19235767317382897u},{54,22116458473609275u},{54,31014169343244129u},{54,44232916947218550u},{54,51690282238740215u},{54,62028338686488258u},{54,88465833894437100u},{54,95923199185958765u},{54,103380564477480430u},{54,107445963810864277u},{54,143036807289403693u},{54,191846398371917530u},{54,267093484662380209u},{54,334883205661321223u},{54,485377378242246581u},{54,669766411322642446u},{54,718576002405156283u},{54,854155444403038311u},{54,883984905569124971u},{54,959905425234833679u},{54,970754756484493162u},{54,981604087734152645u},{54,1155143789564889027u},{54,1941509512968986324u},{54,2592295794375201593u},{54,2961073860535993323u},{54,3329851926696785053u},{54,4165027241183396187u},{54,4902583373504979647u},{54,5922147721071986646u},{54,7310490134799785375u},{54,8330054482366792374u},{54,9805166747009959294u},
{55,1350872487778687u},{55,1376436227874259u},{55,1414781838017617u},{55,1465909318208761u},{55,1517036798399905u},{55,2931818636417522u},{55,4423291694721855u},{55,5863637272835044u},{55,7355110331139377u},{55,8846583389443710u},{55,10133546526983467u},{55,10338056447748043u},{55,10542566368512619u},{55,10747076289277195u},{55,13218747603974421u},{55,14710220662278754u},{55,16201693720583087u},{55,19184639837191753u},{55,20676112895496086u},{55,32403387441166174u},{55,35386333557774840u},{55,38369279674383506u},{55,41352225790992172u},{55,70772667115549680u},{55,76738559348767012u},{55,91653289931810342u},{55,92735743148585523u},{55,116599312081454851u},{55,153477118697534024u},{55,798297507870531961u},{55,945808734334848653u},{55,1093319960799165345u},{55,1240831187263482037u},{55,1388342413727798729u},{55,1462098026959957075u},{55,1757120479888590459u},{55,2776684827455597458u},{55,2924196053919914150u},{55,4533805307344187917u},{55,5848392107839828300u},{55,7458001361264102067u},{55,9067610614688375834u},
{56,188370529249907u},{56,213934269345479u},{56,239498009441051u},{56,303407359679981u},{56,354534839871125u},{56,530123499073246u},{56,606814719359962u},{56,782403378562083u},{56,884658338944371u},{56,986913299326659u},{56,1015834560889114u},{56,1060246998146492u},{56,1089168259708947u},{56,1213629438719924u},{56,1389218097922045u},{56,1769316677888742u},{56,2149415257855439u},{56,2427258877439848u},{56,3158534775810787u},{56,3538633355777484u},{56,3918731935744181u},{56,4474419174912999u},{56,6697168131588271u},{56,7077266711554968u},{56,7457365291521665u},{56,8948838349825998u},{56,9709035509759392u},{56,11551685886467967u},{56,14154533423109936u},{56,16757380959751905u},{56,23103371772935934u},{56,25706219309577903u},{56,28309066846219872u},{56,30911914382861841u},{56,51412438619155806u},{56,54015286155797775u},{56,56618133692439744u},{56,59220981229081713u},{56,105427724774953581u},{56,108030572311595550u},{56,110633419848237519u},{56,113236267384879488u},{56,216061144623191100u},{56,218663992159833069u},{56,221266839696475038u},{56,223869687233117007u},{56,287213910318707477u},{56,292419605391991415u},{56,297625300465275353u},{56,437327984319666138u},{56,442533679392950076u},{56,584839210783982830u},{56,734953284784941491u},{56,874655968639332276u},{56,1003947262347155185u},{56,1014358652493723061u},{56,1024770042640290937u},{56,1035181432786858813u},{56,1169678421567965660u},{56,1319792495568924321u},{56,1899426011279623213u},{56,2049540085280581874u},{56,2339356843135931320u},{56,2489470917136889981u},{56,3798852022559246426u},{56,3948966096560205087u},{56,4099080170561163748u},{56,4528599612270903979u},{56,4678713686271862640u},{56,4828827760272821301u},{56,7747818119119451513u},{56,7897932193120410174u},{56,8048046267121368835u},{56,9057199224541807958u},{56,9357427372543725280u},{56,9657655520545642602u},{56,9957883668547559924u},
{57,104681691227896u},{57,136029683635959u},{57,141813935948450u},{57,272059367271918u},{57,277843619584409u},{57,283627871896900u},{57,555687239168818u},{57,561471491481309u},{57,1111374478337636u},{57,1122942982962618u},{57,1491473058304333u},{57,2614416041266951u},{57,2982946116608666u},{57,3351476191950381u},{57,4100104847258793u},{57,4837164997942223u},{57,5965892233217332u},{57,6702952383900762u},{57,7071482459242477u},{57,8200209694517586u},{57,9674329995884446u},{57,10803057231159555u},{57,11931784466434664u},{57,13405904767801524u},{57,19003266925677141u},{57,21606114462319110u},{57,24208961998961079u},{57,40609381387996251u},{57,43212228924638220u},{57,45815076461280189u},{57,58483921078398283u},{57,86424457849276440u},{57,91630152922560378u},{57,102041543069128254u},{57,103953604473586721u},{57,109159299546870659u},{57,116967842156796566u},{57,144908378927674723u},{57,172848915698552880u},{57,233935684313593132u},{57,289816757855349446u},{57,384049758314551793u},{57,439930831856308107u},{57,467871368627186264u},{57,617985442628144925u},{57,729747589711657553u},{57,879861663712616214u},{57,932449103585547057u},{57,935742737254372528u},{57,939036370923197999u},{57,1085856811255331189u},{57,1459495179423315106u},{57,1609609253424273767u},{57,1871485474508745056u},{57,2545351990678646295u},{57,3219218506848547534u},{57,3742970949017490112u},{57,5090703981357292590u},{57,6438437013697095068u},{57,6812075381865078985u},{57,7485941898034980224u},{57,7859580266202964141u},
{58,107666896446269u},{58,113451148758760u},{58,226902297517520u},{58,300608312585863u},{58,527510610103383u},{58,601216625171726u},{58,674922640240069u},{58,810766165751773u},{58,958178195888459u},{58,1055021220206766u},{58,1105590226025145u},{58,1202433250343452u},{58,1349845280480138u},{58,1865787385958539u},{58,2160611446231911u},{58,2455435506505283u},{58,4321222892463822u},{58,6039598248285675u},{58,7218894489379163u},{58,8642445784927644u},{58,10065997080476125u},{58,11245293321569613u},{58,17284891569855288u},{58,34569783139710576u},{58,54457522246207833u},{58,69139566279421152u},{58,90939366790376876u},{58,94233000459202347u},{58,99927205641396271u},{58,123597088525628985u},{58,138279132558842304u},{58,247194177051257970u},{58,261876221084471289u},{58,494388354102515940u},{58,509070398135729259u},{58,523752442168942578u},{58,732594692302754515u},{58,959412620138605242u},{58,988776708205031880u},{58,1018140796271458518u},{58,1047504884337885156u},{58,1333050988306589159u},{58,1362415076373015797u},{58,1391779164439442435u},{58,2036281592542917036u},{58,2724830152746031594u},{58,4072563185085834072u},{58,5449660305492063188u},{58,5764570497527193829u},{58,6453119057730308387u},{58,8145126370171668144u},{58,9207313298542766619u},{58,9837133682613027901u},
{59,124870726884338u},{59,130357126198021u},{59,181521838014016u},{59,221118045205029u},{59,442236090410058u},{59,550051913355731u},{59,697463943492417u},{59,884472180820116u},{59,913095589383763u},{59,1042857009584168u},{59,1071480418147815u},{59,1100103826711462u},{59,1128727235275109u},{59,1207919649657135u},{59,2013199416095225u},{59,2415839299314270u},{59,2602847536641969u},{59,4026398832190450u},{59,4213407069518149u},{59,4831678598628540u},{59,6629246368832419u},{59,9361855325674793u},{59,9663357197257080u},{59,9964859068839367u},{59,11460924967460959u},{59,13258492737664838u},{59,15056060507868717u},{59,17903163098965679u},{59,24719417705125797u},{59,49438835410251594u},{59,64120879443464913u},{59,77005355706474353u},{59,84195626787289869u},{59,98877670820503188u},{59,113559714853716507u},{59,128241758886929826u},{59,146518938460550903u},{59,197755341641006376u},{59,278355832887888487u},{59,344274280101557279u},{59,395510683282012752u},{59,556711665775776974u},{59,688548560203114558u},{59,791021366564025504u},{59,900985945877334253u},{59,1003458752238245199u},{59,1105931558599156145u},{59,1113423331551553948u},{59,1164659734732009421u},{59,7405341406788098113u},{59,7830216178136537503u},{59,9317277877856075368u},{59,9712185557394923546u},{59,9939606488973938847u},
{60,133768106985754u},{60,188343799589482u},{60,214296083629563u},{60,241583929931427u},{60,267536213971508u},{60,376687599178964u},{60,402639883219045u},{60,428592167259126u},{60,483167859862854u},{60,618271529110391u},{60,670176097190553u},{60,805279766438090u},{60,935041186638495u},{60,966335719725708u},{60,997630252812921u},{60,1101439388973245u},{60,1475455863628643u},{60,1610559532876180u},{60,1932671439451416u},{60,2441791583354351u},{60,3221119065752360u},{60,3865342878902832u},{60,5662910649106711u},{60,6442238131504720u},{60,7730685757805664u},{60,8510013240203673u},{60,10546493815815413u},{60,11325821298213422u},{60,12105148780611431u},{60,12884476263009440u},{60,18277179573621077u},{60,24210297561222862u},{60,28584760584028629u},{60,57169521168057258u},{60,80600491246882111u},{60,89349417292493645u},{60,105590116290502982u},{60,106847269383716713u},{60,114339042336114516u},{60,115596195429328247u},{60,136211357450143351u},{60,178698834584987290u},{60,221186311719831229u},{60,399885146304818519u},{60,442372623439662458u},{60,977211974101410597u},{60,3256552193478187697u},{60,3426502102017563453u},{60,3596452010556939209u},{60,4021326781905378599u},{60,7192904021113878418u},{60,8042653563810757198u},
{61,144416133054143u},{61,161055953287618u},{61,177695773521093u},{61,220287877794649u},{61,322111906575236u},{61,440575755589298u},{61,542399784369885u},{61,644223813150472u},{61,845886763331909u},{61,881151511178596u},{61,916416259025283u},{61,1084799568739770u},{61,1288447626300944u},{61,1797567770203879u},{61,2576895252601888u},{61,3967166907683419u},{61,5153790505203776u},{61,5933117987601785u},{61,7562302448091177u},{61,7934333815366838u},{61,9935549643131891u},{61,10307581010407552u},{61,10679612377683213u},{61,11564734103621283u},{61,17869883458498729u},{61,35739766916997458u},{61,55982897570536901u},{61,71479533833994916u},{61,93492907939410499u},{61,95956068518953378u},{61,96982249236278196u},{61,100471590533145893u},{61,142959067667989832u},{61,212437385674219695u},{61,297412339943907573u},{61,413380566740511481u},{61,424874771348439390u},{61,583330475279887237u},{61,826761133481022962u},{61,849749542696878780u},{61,985216837412470809u},{61,1008205246628326627u},{61,1166660950559774474u},{61,1348105063707078139u},{61,1834966380109349589u},{61,2514766014266852613u},{61,5527887549543904585u},{61,7204398225721806327u},{61,8201109267742205045u},{61,9197820309762603763u},
{62,108479956873977u},{62,121791813060757u},{62,135103669247537u},{62,216959913747954u},{62,433919827495908u},{62,522432000089715u},{62,779327482398009u},{62,867839654991816u},{62,956351827585623u},{62,1044864000179430u},{62,1133376172773237u},{62,1186623597520357u},{62,1912703655171246u},{62,2373247195040714u},{62,4374463022805767u},{62,6747710217846481u},{62,9492988780162856u},{62,9883002824338950u},{62,10396093183001359u},{62,13495420435692962u},{62,16594747688384565u},{62,33189495376769130u},{62,42487477134843939u},{62,54884786145610351u},{62,84974954269687878u},{62,96469158877615787u},{62,98275367683292793u},{62,109769572291220702u},{62,121263776899148611u},{62,146058394920681435u},{62,169949908539375756u},{62,303610994449290779u},{62,339899817078751512u},{62,607221988898581558u},{62,679799634157503024u},{62,960422219390937985u},{62,1032999864649859451u},{62,1105577509908780917u},{62,1178155155167702383u},{62,1640221853548441009u},{62,2211155019817561834u},{62,2709510540827761193u},{62,3280443707096882018u},{62,3851376873366002843u},{62,4422310039635123668u},{62,5419021081655522386u},{62,5989954247924643211u},{62,6560887414193764036u},{62,7131820580462884861u},{62,7702753746732005686u},{62,8273686913001126511u},{62,9676799839168301316u},{62,9696175830772803122u},{62,9715551822377304928u},{62,9734927813981806734u},
{63,101170107019528u},{63,104486400017943u},{63,107802693016358u},{63,111819591968952u},{63,115135884967367u},{63,120460627442079u},{63,187673830137038u},{63,208972800035886u},{63,230271769934734u},{63,240921254884158u},{63,308134457579117u},{63,350732397376813u},{63,417945600071772u},{63,506457772665579u},{63,616268915158234u},{63,726080057650889u},{63,939069756639369u},{63,963685019536632u},{63,988300282433895u},{63,1207922567419205u},{63,2001215827765053u},{63,2440460397735673u},{63,2879704967706293u},{63,3318949537676913u},{63,3977816392632843u},{63,5759409935412586u},{63,6637899075353826u},{63,7955632785265686u},{63,8858737188104189u},{63,10615715467986669u},{63,13275798150707652u},{63,15057391693487395u},{63,23891513618694321u},{63,26551596301415304u},{63,29211678984136287u},{63,53103192602830608u},{63,55763275285551591u},{63,58423357968272574u},{63,75237727941642449u},{63,80557893307084415u},{63,106206385205661216u},{63,111526550571103182u},{63,116846715936545148u},{63,119506798619266131u},{63,150475455883284898u},{63,192084443878187597u},{63,233693431873090296u},{63,269982254502551029u},{63,300950911766569796u},{63,384168887756375194u},{63,415137545020393961u},{63,768337775512750388u},{63,882524408766574553u},{63,956054388954129048u},{63,965742384756379951u},{63,975430380558630854u},{63,985118376360881757u},{63,994806372163132660u},
{64,197660056486779u},{64,241584513483841u},{64,285508970480903u},{64,395320112973558u},{64,483169026967682u},{64,571017940961806u},{64,766024963049853u},{64,790640225947116u},{64,815255488844379u},{64,966338053935364u},{64,990953316832627u},{64,1142035881923612u},{64,1317733709911860u},{64,1342348972809123u},{64,2484384854732735u},{64,2835780510709231u},{64,3011478338697479u},{64,3714269650650471u},{64,5671561021418462u},{64,6022956677394958u},{64,7428539301300942u},{64,8683039360115941u},{64,10088621984021925u},{64,10239704549112910u},{64,11343122042836924u},{64,11494204607927909u},{64,12045913354789916u},{64,16111578661416883u},{64,20177243968043850u},{64,32223157322833766u},{64,36288822629460733u},{64,49740318608156633u},{64,64446314645667532u},{64,72577645258921466u},{64,87283641296432365u},{64,96019302170050239u},{64,96367306838319328u},{64,99480637216313266u},{64,799306432776769155u},{64,844981086078298821u},{64,890655739379828487u},{64,1027679699284417485u},{64,1073354352585947151u},{64,1119029005887476817u},{64,1598612865553538310u},{64,1689962172156597642u},{64,1781311478759656974u},
{65,101556857972989u},{65,104357483033456u},{65,131773370991186u},{65,233330228964175u},{65,263546741982372u},{65,496876970946547u},{65,527093483964744u},{65,963537428874897u},{65,993753941893094u},{65,1023970454911291u},{65,1054186967929488u},{65,1084403480947685u},{65,1987507883786188u},{65,2017724396804385u},{65,2047940909822582u},{65,2660082682720983u},{65,2720515708757377u},{65,4035448793608770u},{65,8070897587217540u},{65,9385830672068933u},{65,9567129750178115u},{65,9673402314301628u},{65,9808861854323691u},{65,9915134418447204u},{65,14826862089583687u},{65,16141795174435080u},{65,17456728259286473u},{65,18771661344137866u},{65,33598523433721553u},{65,34913456518572946u},{65,44359720216678273u},{65,46989586386381059u},{65,67197046867443106u},{65,69826913037145892u},{65,88719440433356546u},{65,93979172772762118u},{65,111556767084121379u},{65,116816499423526951u},{65,134394093734886212u},{65,139653826074291784u},{65,159861286555353831u},{65,205535939856883497u},{65,251210593158413163u},{65,319722573110707662u},{65,411071879713766994u},{65,502421186316826326u},{65,639445146221415324u},{65,822143759427533988u},{65,1004842372633652652u},{65,1022419966945011913u},{65,1169963391528412055u},{65,1187540985839771316u},{65,1278890292442830648u},{65,1644287518855067976u},{65,4001791896223251347u},{65,4732586349047726003u},{65,5828778028284437987u},{65,9465172698095452006u},{65,9728836612765840921u},{65,9799146990011277965u},{65,9879570453315459964u},{65,9949880830560897008u},
{66,101615894237683u},{66,115264801951854u},{66,156447670153143u},{66,186664183171340u},{66,216880696189537u},{66,373328366342680u},{66,403544879360877u},{66,433761392379074u},{66,507843326129639u},{66,568276352166033u},{66,807089758721754u},{66,1375366110887787u},{66,1614179517443508u},{66,1852992923999229u},{66,1913425950035623u},{66,2391052763147065u},{66,3228359034887016u},{66,3705985847998458u},{66,4782105526294130u},{66,5141784984922639u},{66,6456718069774032u},{66,9564211052588260u},{66,9923890511216769u},{66,12913436139548064u},{66,19847781022433538u},{66,20207460481062047u},{66,25467192820467619u},{66,25826872279096128u},{66,34076150246832995u},{66,57273156356226337u},{66,85729894805025251u},{66,96968718401093413u},{66,108207541997161575u},{66,114546312712452674u},{66,119446365593229737u},{66,131404548106554917u},{66,171459789610050502u},{66,193937436802186826u},{66,233992678305682411u},{66,262809096213109834u},{66,325341984908741743u},{66,405452467915732913u},{66,467985356611364822u},{66,508040598114860407u},{66,650683969817483486u},{66,793327341520106565u},{66,953548307534088905u},{66,976880773183504310u},{66,978903390395253301u},{66,980926007607002292u},{66,982948624818751283u},{66,1016081196229720814u},{66,1158724567932343893u},{66,2032162392459441628u},{66,6559572481108912643u},{66,6844859224514158801u},{66,7130145967919404959u},{66,8128649569837766512u},{66,8626890062191072793u},{66,9197463549001565109u},{66,9768037035812057425u},
{67,149331346537072u},{67,149915086055043u},{67,298662693074144u},{67,299246432592115u},{67,478210552629413u},{67,717607698703105u},{67,837306271739951u},{67,956421105258826u},{67,1075535938777701u},{67,1316100563887335u},{67,1435215397406210u},{67,1912842210517652u},{67,2510751336183911u},{67,3825684421035304u},{67,5021502672367822u},{67,6815230049366599u},{67,7651368842070608u},{67,9206866552031635u},{67,10043005344735644u},{67,10762364261992662u},{67,10879144137439653u},{67,11598503054696671u},{67,13630460098733198u},{67,18413733104063270u},{67,21641508399432315u},{67,27260920197466396u},{67,35271968498165513u},{67,43283016798864630u},{67,56077338104893819u},{67,72099434706292053u},{67,97688077318350431u},{67,98776455526523494u},{67,99710694530099422u},{67,126621275101224845u},{67,158665468304021313u},{67,190709661506817781u},{67,238775951311012483u},{67,317330936608042626u},{67,381419323013635562u},{67,492018501513462173u},{67,634661873216085252u},{67,762838646027271124u},{67,955103805244049932u},{67,969570404135487139u},{67,984037003026924346u},{67,998503601918361553u},{67,1254857147540733297u},{67,1269323746432170504u},{67,1525677292054542248u},{67,1540143890945979455u},{67,1953607407162411485u},{67,2509714295081466594u},{67,3065821183000521703u},{67,3351107926405767861u},{67,3907214814324822970u},{67,4463321702243878079u},{67,6702215852811535722u},{67,7814429628649645940u},{67,8926643404487756158u},
{68,119698573036846u},{68,143521539740621u},{68,215574179369917u},{68,239397146073692u},{68,263220112777467u},{68,526440225554934u},{68,574086158962484u},{68,693200992481359u},{68,788492859296459u},{68,1052880451109868u},{68,1148172317924968u},{68,1841373310406327u},{68,3037191561738845u},{68,3682746620812654u},{68,4328301679886463u},{68,6074383123477690u},{68,7365493241625308u},{68,8656603359772926u},{68,10593268536994353u},{68,14730986483250616u},{68,17313206719545852u},{68,25324255020244969u},{68,34626413439091704u},{68,50648510040489938u},{68,73390544824439671u},{68,78554985297030143u},{68,86830421189542669u},{68,101297020080979876u},{68,124039054864929609u},{68,146781089648879342u},{68,248078109729859218u},{68,308028778189195891u},{68,390721481432482297u},{68,616057556378391782u},{68,676008224837728455u},{68,781442962864964594u},{68,886877700892200733u},{68,1021245636702311286u},{68,1097747176946673011u},{68,1126680374729547425u},{68,1232115112756783564u},{68,1457451187702693049u},{68,1562885925729929188u},{68,3125771851459858376u},{68,4132550889270732455u},{68,6251543702919716752u},{68,7258322740730590831u},{68,8265101778541464910u},{68,9972653693185766168u},{68,9999625929438730445u},
{69,100056460155855u},{69,109585646837365u},{69,119114833518875u},{69,123879426859630u},{69,142937800222650u},{69,161996173585670u},{69,474029698806629u},{69,531204818895689u},{69,607438312347769u},{69,683671805799849u},{69,759905299251929u},{69,971598332726072u},{69,981316873801556u},{69,991035414877040u},{69,1214876624695538u},{69,1367343611599698u},{69,1784198190317267u},{69,1936665177221427u},{69,2012898670673507u},{69,2429753249391076u},{69,3151541801916965u},{69,3568396380634534u},{69,4442651920064583u},{69,4859506498782152u},{69,6303083603833930u},{69,6719938182551499u},{69,8051594682694028u},{69,8468449261411597u},{69,8885303840129166u},{69,9719012997564304u},{69,13023021786385429u},{69,13439876365102998u},{69,18604316837693470u},{69,19021171416411039u},{69,26046043572770858u},{69,26462898151488427u},{69,37625488254104509u},{69,52508941724259285u},{69,52925796302976854u},{69,75250976508209018u},{69,105017883448518570u},{69,105851592605953708u},{69,120318191497390915u},{69,135201644967545691u},{69,150501953016418036u},{69,210035766897037140u},{69,225336074945909485u},{69,240636382994781830u},{69,270403289935091382u},{69,375838027962327521u},{69,450672149891818970u},{69,540806579870182764u},{69,751676055924655042u},{69,826510177854146491u},{69,901344299783637940u},{69,999228734906273392u},{69,999522278121313253u},{69,999815821336353114u},{69,1367316757724329255u},{69,1653020355708292982u},{69,1938723953692256709u},{69,2299261673605711885u},{69,2734633515448658510u},{69,3306040711416585964u},{69,4598523347211423770u},{69,5033895189054370395u},{69,6612081422833171928u},{69,8326303010736954290u},{69,8761674852579900915u},{69,9197046694422847540u},{69,9632418536265794165u},
{70,114350240178120u},{70,129596938868536u},{70,508334770860065u},{70,569321565621729u},{70,630308360383393u},{70,691295155145057u},{70,843762142049217u},{70,894695952196802u},{70,965735731572545u},{70,1016669541720130u},{70,1138643131243458u},{70,1260616720766786u},{70,1382590310290114u},{70,1860431683769347u},{70,2521233441533572u},{70,3720863367538694u},{70,5042466883067144u},{70,5459321461784713u},{70,7024872156359819u},{70,7441726735077388u},{70,7858581313794957u},{70,10084933766134288u},{70,10501788344851857u},{70,10918642923569426u},{70,14883453470154776u},{70,17943515079929245u},{70,21003576689703714u},{70,24063638299478183u},{70,32826968550084021u},{70,35887030159858490u},{70,38947091769632959u},{70,48127276598956366u},{70,77894183539265918u},{70,84014306758814856u},{70,90134429978363794u},{70,96254553197912732u},{70,99570621632579506u},{70,99645694412874618u},{70,99864164847619367u},{70,99939237627914479u},{70,105434738027236139u},{70,168028613517629712u},{70,180268859956727588u},{70,192509106395825464u},{70,273463351544865851u},{70,360537719913455176u},{70,459852334721142377u},{70,546926703089731702u},{70,634001071458321027u},{70,721075439826910352u},{70,832630301073695429u},{70,919704669442284754u},{70,1006779037810874079u},{70,1093853406179463404u},{70,1180927774548052729u},{70,1665260602147390858u},{70,1752334970515980183u},{70,1839409338884569508u},{70,1926483707253158833u},{70,2013558075621748158u},{70,2100632443990337483u},{70,3591744309400549691u},{70,3678818677769139016u},{70,3765893046137728341u},{70,3852967414506317666u},{70,3940041782874906991u},{70,4027116151243496316u},{70,7096414250432510057u},{70,7183488618801099382u},{70,7270562987169688707u},{70,7705934829012635332u},{70,7793009197381224657u},{70,7880083565749813982u},
{71,101666954172013u},{71,111853716201530u},{71,152466986904160u},{71,193147146314509u},{71,203333908344026u},{71,406667816688052u},{71,538828168240897u},{71,660801757764225u},{71,813335633376104u},{71,925122460869915u},{71,1036909288363726u},{71,1077656336481794u},{71,1189443163975605u},{71,1230190212093673u},{71,1321603515528450u},{71,2267099500457399u},{71,2531420203563089u},{71,3588703015985849u},{71,4645985828408609u},{71,7177406031971698u},{71,9958411744486068u},{71,9972076719316973u},{71,9985741694147878u},{71,14354812063943396u},{71,23534996893266803u},{71,28709624127886792u},{71,47069993786533606u},{71,64484867460251471u},{71,80008749164111438u},{71,94139987573067212u},{71,97423622837829303u},{71,111554861246785077u},{71,128969734920502942u},{71,146384608594220807u},
{72,109856497020258u},{72,115915043271793u},{72,121973589523328u},{72,132160351552845u},{72,185024492173983u},{72,237888632795121u},{72,264320703105690u},{72,370048984347966u},{72,475777265590242u},{72,528641406211380u},{72,740097968695932u},{72,951554531180484u},{72,995149467579575u},{72,995512237269064u},{72,997882462545756u},{72,1057282812422760u},{72,1156952547413501u},{72,1480195937391864u},{72,1579865672382605u},{72,1903109062360968u},{72,2114565624845520u},{72,2214235359836261u},{72,3060061609774469u},{72,3905887859712677u},{72,4328800984681781u},{72,4428470719672522u},{72,6020453484558197u},{72,6120123219548938u},{72,7811775719425354u},{72,7911445454416095u},{72,8458262499382080u},{72,8557932234372821u},{72,8657601969363562u},{72,8757271704354303u},{72,8856941439345044u},{72,8956611174335785u},{72,12140576704107135u},{72,12240246439097876u},{72,15623551438850708u},{72,15723221173841449u},
{73,103304862741662u},{73,105728281242276u},{73,108151699742890u},{73,211456562484552u},{73,315973134476521u},{73,422913124969104u},{73,631946268953042u},{73,741309677946239u},{73,845826249938208u},{73,945495984928949u},{73,1164222802915343u},{73,1263892537906084u},{73,1582289090883219u},{73,1691652499876416u},{73,1791322234867157u},{73,2428115340821427u},{73,3164578181766438u},{73,4119767840697843u},{73,4856230681642854u},{73,5592693522587865u},{73,6329156363532876u},{73,7702412310432157u},{73,8239535681395686u},{73,9175337992322179u},{73,9712461363285708u},{73,11185387045175730u},{73,11722510416139259u},{73,12658312727065752u},{73,100746032798601218u},{73,101266501816526016u},{73,815016087929996082u},{73,828947986868970374u},{73,842879885807944666u},
{74,104516571991969u},{74,122511784189626u},{74,132205458192082u},{74,150200670389739u},{74,209033143983938u},{74,272712454579365u},{74,318396552977135u},{74,445755174167989u},{74,636793105954270u},{74,863821462135865u},{74,891510348335978u},{74,1090849818317460u},{74,1118538704517573u},{74,1146227590717686u},{74,2237077409035146u},{74,2973540249980157u},{74,3992409219506989u},{74,4474154818070292u},{74,5465334901397011u},{74,8466564037577281u},{74,8948309636140584u},{74,10022556378067642u},{74,10061279797429137u},{74,10133311922868094u},{74,10172035342229589u},{74,87074368368589325u},{74,94040317838076471u},{74,101006267307563617u},{74,107972216777050763u},{74,114938166246537909u},{74,174148736737178650u},{74,188080635676152942u},{74,202012534615127234u},{74,2236440769759136717u},{74,2347895961270931053u},{74,2459351152782725389u},{74,2570806344294519725u},{74,2626533940050416893u},{74,4695791922541862106u},{74,4918702305565450778u},{74,7322325862592278999u},{74,9837404611130901556u},
{75,100226589313643u},{75,109084981831746u},{75,117943374349849u},{75,126801766867952u},{75,127358621190854u},{75,172764292427173u},{75,218169963663492u},{75,254717242381708u},{75,345528584854346u},{75,436339927326984u},{75,464028813527097u},{75,509434484763416u},{75,691057169708692u},{75,809557398381443u},{75,991180083326719u},{75,1006669451071317u},{75,1014414134943616u},{75,1382114339417384u},{75,1500614568090135u},{75,1982360166653438u},{75,2882728907507519u},{75,3001229136180270u},{75,3964720333306876u},{75,4683466389215681u},{75,5765457815015038u},{75,6847449240814395u},{75,7084449698159897u},{75,8521941809977507u},{75,8892931863740358u},{75,9366932778431362u},{75,11530915630030076u},{75,12849907513174935u},{75,15013890364773649u},{75,17414873673717865u},{75,24380823143205011u},{75,31346772612692157u},{75,34829747347435730u},{75,48761646286410022u},{75,62693545225384314u},{75,69659494694871460u},{75,82272401750700893u},{75,84910385516990611u},{75,97523292572820044u},{75,110136199628649477u},{75,112774183394939195u},{75,125387090450768628u},{75,139318989389742920u},{75,151931896445572353u},{75,195046585145640088u},{75,207659492201469521u},{75,250774180901537256u},{75,278637978779485840u},{75,291250885835315273u},{75,402706077347109609u},{75,514161268858903945u},{75,569888864614801113u},{75,792799247638389785u},{75,805412154694219218u},{75,1003096723606149024u},{75,1015709630661978457u},{75,1028322537717807890u},{75,1040935444773637323u},{75,1139777729229602226u},{75,1375301019309020331u},{75,1610824309388438436u},{75,1821121785356197675u},{75,2056645075435615780u},{75,2279555458459204452u},{75,2750602038618040662u},{75,3431946094744636111u},{75,4113290150871231560u},{75,5501204077236081324u},{75,6182548133362676773u},{75,6863892189489272222u},{75,7545236245615867671u},{75,8436877777710222359u},{75,8958375986092376301u},{75,9118221833836817808u},{75,9639720042218971750u},{75,9799565889963413257u},
{76,100358470837555u},{76,100783443636545u},{76,101208416435535u},{76,101633389234525u},{76,300122913618027u},{76,325371896127037u},{76,431247633545283u},{76,600245827236054u},{76,769244020926825u},{76,862495267090566u},{76,963491197126606u},{76,1200491654472108u},{76,1369489848162879u},{76,1538488041853650u},{76,2400983308944216u},{76,2569981502634987u},{76,2738979696325758u},{76,3482974734743573u},{76,5139963005269974u},{76,5477959392651516u},{76,6965949469487146u},{76,8284941352632005u},{76,8960934127395089u},{76,10279926010539948u},{76,10955918785303032u},{76,12274910668447891u},{76,13931898938974292u},{76,15926883596882235u},{76,22554836678987839u},{76,24549821336895782u},{76,27863797877948584u},{76,36486735617962131u},{76,45109673357975678u},{76,55727595755897168u},{76,72973471235924262u},{76,85586378291753695u},{76,100771281781110228u},{76,101546255555017239u},{76,102832253771780789u},{76,104118251988544339u},{76,111455191511794336u},{76,158559849527677957u},{76,205664507543561578u},{76,222910383023588672u},{76,270015041039472293u},{76,317119699055355914u},{76,634239398110711828u},{76,728448714142479070u},{76,822658030174246312u},{76,847883844285905178u},{76,891641532094354688u},{76,963972004221897175u},{76,1456897428284958140u},{76,1645316060348492624u},{76,1927944008443794350u},{76,2609288064570389799u},{76,3290632120696985248u},{76,4160394808887115181u},{76,5218576129140779598u},{76,6276757449394444015u},{76,7262608297520565945u},{76,8320789617774230362u},{76,9378970938027894779u},
{77,113450432170949u},{77,123550025174553u},{77,133649618178157u},{77,153848804185365u},{77,287498422363522u},{77,307697608370730u},{77,446397023050689u},{77,615395216741460u},{77,764194224425023u},{77,892794046101378u},{77,1021393867777733u},{77,1102190611806565u},{77,1230790433482920u},{77,1528388448850046u},{77,1656988270526401u},{77,2590180688642195u},{77,3185376719376447u},{77,3313976541052802u},{77,6370753438752894u},{77,6499353260429249u},{77,10103523111216070u},{77,10232122932892425u},{77,10360722754568780u},{77,12741506877505788u},{77,17117275658350739u},{77,34234551316701478u},{77,38610320097546429u},{77,68469102633402956u},{77,72844871414247907u},{77,77220640195092858u},{77,86486577043488180u},{77,90862345824333131u},{77,95238114605178082u},{77,136938205266805912u},{77,141313974047650863u},{77,145689742828495814u},{77,150065511609340765u},{77,154441280390185716u},{77,192794400844379435u},{77,291379485656991628u},{77,385588801688758870u},{77,582758971313983256u},{77,681344056126595449u},{77,771177603377517740u},{77,861011150628440031u},{77,1165517942627966512u},{77,1255351489878888803u},{77,1452521659504113189u},{77,1542355206755035480u},{77,2420869432506855315u},{77,2510702979757777606u},{77,2905043319008226378u},{77,2994876866259148669u},{77,4931572412264632921u},{77,5021405959515555212u},{77,5899920185267375047u},{77,5989753732518297338u},{77,9863144824529265842u},{77,9952978371780188133u},
{78,108400635669147u},{78,112037486692166u},{78,123079043348292u},{78,143278229355500u},{78,168998193690771u},{78,194718158026042u},{78,363716351716813u},{78,389436316052084u},{78,415156280387355u},{78,881752489445252u},{78,907472453780523u},{78,933192418115794u},{78,1010352311121607u},{78,1036072275456878u},{78,1969264693572672u},{78,1994984657907943u},{78,2020704622243214u},{78,4092849173156970u},{78,4144289101827512u},{78,4221448994833325u},{78,4324328852174409u},{78,4427208709515493u},{78,8442897989666650u},{78,8648657704348818u},{78,8854417419030986u},{78,9060177133713154u},{78,12818666770511601u},{78,13024426485193769u},{78,17297315408697636u},{78,21261564760178251u},{78,25637333541023202u},{78,30013102321868153u},{78,38558880168875887u},{78,47310417730565789u},{78,51274667082046404u},{78,60026204643736306u},{78,73153510986271159u},{78,77117760337751774u},{78,81082009689232389u},{78,94620835461131578u},{78,98585084812612193u},{78,102549334164092808u},{78,120052409287472612u},{78,124016658638953227u},{78,154235520675503548u},{78,197170169625224386u},{78,240104818574945224u},{78,244069067926425839u},{78,308471041351007096u},{78,394340339250448772u},{78,398304588601929387u},{78,484173886501371063u},{78,616942082702014192u},{78,706775629952936483u},{78,878514225751819835u},{78,968347773002742126u},{78,1042324322847741957u},{78,1050252821550703187u},{78,1058181320253664417u},{78,1066109818956625647u},{78,1144050618153106093u},{78,1233884165404028384u},{78,1936695546005484252u},{78,2026529093256406543u},{78,2288101236306212186u},{78,2377934783557134477u},{78,2467768330808056768u},{78,3873391092010968504u},{78,3963224639261890795u},{78,4755869567114268954u},{78,6251325875568102981u},{78,6430992970069947563u},{78,7926449278523781590u},{78,9152404945224848744u},{78,9511739134228537908u},{78,9871073323232227072u},
{79,101477518366704u},{79,102047684266825u},{79,103712030415343u},{79,104282196315464u},{79,114622583484400u},{79,140342547819671u},{79,166062512154942u},{79,280685095639342u},{79,306405059974613u},{79,332125024309884u},{79,715689977290310u},{79,767129905960852u},{79,818569834631394u},{79,844289798966665u},{79,947169656307749u},{79,1637139669262788u},{79,1688579597933330u},{79,2481429468229453u},{79,2687189182911621u},{79,3274279338525576u},{79,3377159195866660u},{79,4170009066162783u},{79,6754318391733320u},{79,7547168262029443u},{79,8340018132325566u},{79,13127306342534853u},{79,175702845150363967u},{79,177288544890956213u},{79,264743542530990135u},{79,351405690300727934u},{79,439653537811057979u},{79,529487085061980270u},{79,702811380601455868u},{79,792644927852378159u},{79,879307075622115958u},{79,962797823910669265u},{79,975483421835407233u},{79,1322132012914358429u},{79,1585289855704756318u},{79,2201439088536474387u},{79,3170579711409512636u},{79,4402878177072948774u},{79,4845703114365191245u},{79,6341159422819025272u},{79,7310300045692063521u},{79,8805756354145897548u},{79,9691406228730382490u},
{80,106236240569227u},{80,128599821676355u},{80,143137995458062u},{80,157676169239769u},{80,168857959793333u},{80,271737817134417u},{80,286275990916124u},{80,337715919586666u},{80,455133950709457u},{80,572551981832248u},{80,675431839173332u},{80,763773522732709u},{80,910267901418914u},{80,998609584978291u},{80,1145103963664496u},{80,1233445647223873u},{80,1350863678346664u},{80,2143713548642787u},{80,2466891294447746u},{80,2701727356693328u},{80,3494577226989451u},{80,5403454713386656u},{80,10160553935163394u},{80,10367426290714697u},{80,10660415048087107u},{80,34506289133835895u},{80,36091988874428141u},{80,52948708506198027u},{80,69012578267671790u},{80,86662147769737799u},{80,93004946732106783u},{80,99347745694475767u},{80,99554618050027070u},{80,105897417012396054u},{80,125132686255054309u},{80,138025156535343580u},{80,157260425778001835u},{80,192559564782133853u},{80,211794834024792108u},{80,333756120798661925u},{80,423589668049584216u},{80,545550954823454033u},{80,725218049325298615u},{80,847179336099168432u},{80,969140622873038249u},{80,1091101909646908066u},{80,1213063196420777883u},{80,1938281245746076498u},{80,2060242532519946315u},{80,3876562491492152996u},{80,4120485065039892630u},{80,5372018799945987023u},{80,6745513821625951233u},{80,7753124982984305992u},{80,8240970130079785260u},{80,9248581291438140019u},
{81,102434800993430u},{81,102657329167257u},{81,102879857341084u},{81,103102385514911u},{81,131956204904498u},{81,132178733078325u},{81,146716906860032u},{81,235058590419409u},{81,264357466156650u},{81,499416056576059u},{81,528714932313300u},{81,1028130988889359u},{81,1057429864626600u},{81,1497803113380523u},{81,1556400864855005u},{81,2319951859413887u},{81,2995606226761046u},{81,3112801729710010u},{81,3788456097057169u},{81,3905651600006133u},{81,4639903718827774u},{81,5315558086174933u},{81,6901257826767179u},{81,8486957567359425u},{81,8604153070308389u},{81,9279807437655548u},{81,9955461805002707u},{81,13802515653534358u},{81,19910923610005414u},{81,23757977458537065u},{81,27605031307068716u},{81,39821847220010828u},{81,43668901068542479u},{81,47515954917074130u},{81,79643694440021656u},{81,87337802137084958u},{81,95031909834148260u},{81,110420125228274864u},{81,118114232925338166u},{81,125808340622401468u},{81,145043609865059723u},{81,160431825259186327u},{81,251616681244802936u},{81,267004896638929540u},{81,290087219730119446u},{81,412048506503989263u},{81,442824937292242471u},{81,534009793277859080u},{81,580174439460238892u},{81,671359295445855501u},{81,824097013007978526u},{81,976834730570101551u},{81,1006466724979211744u},{81,1038387592146607967u},{81,1068019586555718160u},{81,1251533734906094393u},{81,1648194026015957052u},{81,1953669461140203102u},{81,2044854317125819711u},{81,2503067469812188786u},{81,2594252325797805395u},{81,3296388052031914104u},{81,3998523778266022813u},{81,5097319795609994181u},{81,6501591248078211599u},{81,6592776104063828208u},{81,7997047556532045626u},
{82,100239256393335u},{82,104852873767352u},{82,105742986462660u},{82,106633099157968u},{82,129093075782922u},{82,182187097188079u},{82,211485972925320u},{82,252682421496519u},{82,311280172971001u},{82,369877924445483u},{82,422971945850640u},{82,510868573062363u},{82,622560345942002u},{82,734252118821641u},{82,1016233416055401u},{82,1245120691884004u},{82,1697391513471885u},{82,2261354107939405u},{82,2490241383768008u},{82,3165895751115167u},{82,3394783026943770u},{82,4751595491707413u},{82,6560678778058937u},{82,6789566053887540u},{82,9274303707586223u},{82,9503190983414826u},{82,9732078259243429u},{82,13121357556117874u},{82,13350244831946477u},{82,13579132107775080u},{82,19006381966829652u},{82,19235269242658255u},{82,26700489663892954u},{82,38012763933659304u},{82,38241651209487907u},{82,53400979327785908u},{82,76254415143147211u},{82,76483302418975814u},{82,106115296828086007u},{82,106344184103914610u},{82,106573071379743213u},{82,107030845931400419u},{82,107259733207229022u},{82,107488620483057625u},{82,121961286773869817u},{82,152508830286294422u},{82,183056373798719027u},{82,366112747597438054u},{82,427207834622287264u},{82,518850465159561079u},{82,641040639209259499u},{82,763230813258957919u},{82,884505438205341927u},{82,946516074333505549u},{82,975690294190958536u},{82,1037700930319122158u},{82,1282081278418518998u},{82,1617646482503532447u},{82,2075401860638244316u},{82,2655347412822654605u},{82,3235292965007064894u},
{83,168088032326391u},{83,169188778340256u},{83,170289524354121u},{83,338377556680512u},{83,339478302694377u},{83,340579048708242u},{83,452270821587881u},{83,678956605388754u},{83,904541643175762u},{83,1129025934948905u},{83,1133428919004365u},{83,1357913210777508u},{83,1809083286351524u},{83,2037970562180127u},{83,2715826421555016u},{83,3847053848531651u},{83,5202765567281429u},{83,5431652843110032u},{83,7694107697063302u},{83,10176643858734255u},{83,10405531134562858u},{83,10634418410391461u},{83,10863305686220064u},{83,15159328118298001u},{83,15388215394126604u},{83,21268836820782922u},{83,21497724096611525u},{83,54985578322364289u},{83,67204595727334131u},{83,79423613132303973u},{83,92100405088931021u},{83,96836590136444324u},{83,98667688343073148u},{83,109971156644728578u},{83,134409191454668262u},{83,158847226264607946u},{83,433317343324772185u},{83,531069482564530921u},{83,628821621804289657u},{83,866634686649544370u},{83,873201969903686497u},{83,1062138965129061842u},{83,1257643243608579314u},{83,1544332378073713395u},{83,2124277930258123684u},{83,2704223482442533973u},
{84,224043993367597u},{84,224924590178689u},{84,225805186989781u},{84,226685783800873u},{84,227566380611965u},{84,228446977423057u},{84,449849180357378u},{84,451610373979562u},{84,453371567601746u},{84,455132761223930u},{84,677855859374889u},{84,681378246619257u},{84,903220747959124u},{84,906743135203492u},{84,1133869217409911u},{84,1355711718749778u},{84,1584598994578381u},{84,2035328771746851u},{84,2940310713328159u},{84,3169197989156762u},{84,4070657543493702u},{84,4299544819322305u},{84,4750274596490775u},{84,5880621426656318u},{84,6338395978313524u},{84,7468742808479067u},{84,8599089638644610u},{84,9285751466130419u},{84,9500549192981550u},{84,16067832447123677u},{84,17198179277289220u},{84,23307687979774141u},{84,25568381640105227u},{84,34396358554578440u},{84,35526705384743983u},{84,40048092705406155u},{84,46615375959548282u},{84,51136763280210454u},{84,62225433855014753u},{84,71053410769487966u},{84,80096185410812310u},{84,86663468664954437u},{84,93230751919096564u},{84,108840809814563035u},{84,124450867710029506u},{84,173326937329908874u},{84,211114336374983943u},{84,248901735420059012u},{84,308866475614742679u},{84,346653874659817748u},{84,384441273704892817u},{84,617732951229485358u},{84,693307749319635496u},{84,1046528907233595371u},{84,1071181739770386186u},{84,1235465902458970716u},{84,1664261858463080729u},{84,1815411454643381005u},{84,2470931804917941432u},{84,3050877357102351721u},{84,3630822909286762010u},{84,5219509969659692601u},{84,6379401074028513179u},{84,7539292178397333757u},{84,9328434500024146254u},{84,9606080859847955991u},{84,9883727219671765728u},
{85,136980126772725u},{85,182053104489572u},{85,225364888584235u},{85,315510844017929u},{85,364106208979144u},{85,405656799451623u},{85,450729777168470u},{85,499325142129685u},{85,679617052997073u},{85,859908963864461u},{85,901459554336940u},{85,950054919298155u},{85,998650284259370u},{85,1310638741032931u},{85,1359234105994146u},{85,1719817927728922u},{85,1900109838596310u},{85,2309289025292301u},{85,3030456668761853u},{85,3439635855457844u},{85,3800219677192620u},{85,4209398863888611u},{85,6470092524219697u},{85,6879271710915688u},{85,7191260167689249u},{85,7600439354385240u},{85,8009618541081231u},{85,8418797727777222u},{85,8827976914473213u},{85,12940185048439394u},{85,13349364235135385u},{85,13758543421831376u},{85,16019237082162462u},{85,21768161962912607u},{85,26698728470270770u},{85,27517086843662752u},{85,32038474164324924u},{85,43536323925825214u},{85,48466890433183377u},{85,59146381821291685u},{85,87072647851650428u},{85,92003214359008591u},{85,101864347373724917u},{85,106794913881083080u},{85,110068347374651008u},{85,113362197135225207u},{85,179075862210659019u},{85,184006428718017182u},{85,358151724421318038u},{85,363082290928676201u},{85,721234015349994239u},{85,726164581857352402u},{85,897036444067085330u},{85,906897577081801656u},{85,1164821670876178741u},{85,1452329163714704804u},{85,1739836656553230867u},{85,2032274715899115093u},{85,2607289701576167219u},{85,2904658327429409608u},{85,3479673313106461734u},{85,4064549431798230186u},{85,6086963014682628953u},{85,6959346626212923468u},{85,8129098863596460372u},{85,8406745223420270109u},
{86,109584101418180u},{86,119303174410423u},{86,180291910867388u},{86,190010983859631u},{86,199730056851874u},{86,209449129844117u},{86,360583821734776u},{86,380021967719262u},{86,399460113703748u},{86,721167643469552u},{86,760043935438524u},{86,798920227407496u},{86,1130346830165543u},{86,1169223122134515u},{86,1520087870877048u},{86,1929267057573039u},{86,2669872847027077u},{86,3040175741754096u},{86,4189960717904125u},{86,5339745694054154u},{86,5748924880750145u},{86,6080351483508192u},{86,8048494833050203u},{86,8379921435808250u},{86,10016638182592214u},{86,10348064785350261u},{86,10679491388108308u},{86,11010917990866355u},{86,11829276364258337u},{86,16428416268858453u},{86,21358982776216616u},{86,23658552728516674u},{86,32856832537716906u},{86,37787399045075069u},{86,47317105457033348u},{86,70644231582791975u},{86,75574798090150138u},{86,89703644406708533u},{86,94634210914066696u},{86,99564777421424859u},{86,141288463165583950u},{86,146219029672942113u},{86,230992107572292483u},{86,292438059345884226u},{86,461984215144584966u},{86,636460937450643869u},{86,749491707983111029u},{86,820798792771419098u},{86,923968430289169932u},{86,995275515077478001u},{86,1098445152595228835u},{86,1272921874901287738u},{86,1570290500754530127u},{86,4116134250557105603u},{86,4814041139781341215u},{86,5511948029005576827u},{86,5860901473617694633u},{86,7256715252066165857u},{86,8232268501114211206u},{86,9628082279562682430u},
{87,107105427119030u},{87,126739197307873u},{87,175334562269088u},{87,194968332457931u},{87,233844624426903u},{87,370302894727019u},{87,467689248853806u},{87,740605789454038u},{87,837992143580825u},{87,935378497707612u},{87,1032764851834399u},{87,1072032392212085u},{87,1149784976150029u},{87,1675984287161650u},{87,1870756995415224u},{87,2202183598173271u},{87,2299569952300058u},{87,2630996555058105u},{87,3351968574323300u},{87,4072940593588495u},{87,4404367196346542u},{87,4599139904600116u},{87,6703937148646600u},{87,7424909167911795u},{87,9082042181702030u},{87,9198279809200232u},{87,9314517436698434u},{87,9803014200967225u},{87,9919251828465427u},{87,13407874297293200u},{87,14128846316558395u},{87,14849818335823590u},{87,21885182087228237u},{87,23327126125758627u},{87,28257692633116790u},{87,33188259140474953u},{87,34630203179005343u},{87,40281741705628701u},{87,50142874720345027u},{87,56515385266233580u},{87,74190972865368849u},{87,80563483411257402u},{87,93913238894801501u},{87,106658259986578607u},{87,113030770532467160u},{87,213316519973157214u},{87,219689030519045767u},{87,226061541064934320u},{87,342580934066229253u},{87,355325955158006359u},{87,439378061038091534u},{87,523430166918176709u},{87,794704016196097893u},{87,878756122076183068u},{87,962808227956268243u},{87,1046860333836353418u},{87,1130912439716438593u},{87,1757512244152366136u},{87,1841564350032451311u},{87,1925616455912536486u},{87,2009668561792621661u},{87,2093720667672706836u},{87,2539471239256686923u},{87,2707575451016857273u},{87,3851232911825072972u},{87,4019337123585243322u},{87,5078942478513373846u},{87,6390704151081759895u},{87,7702465823650145944u},{87,9485468109986066292u},{87,9518540131499043043u},
{88,101547857209784u},{88,105318111884067u},{88,109088366558350u},{88,120790378989913u},{88,167598428716165u},{88,214406478442417u},{88,241580757979826u},{88,335196857432330u},{88,428812956884834u},{88,526199311011621u},{88,670393714864660u},{88,814588118717699u},{88,908204218170203u},{88,966323031919304u},{88,994279808274141u},{88,1052398622023242u},{88,1196593025876281u},{88,1340787429729320u},{88,1484981833582359u},{88,1629176237435398u},{88,1773370641288437u},{88,2104797244046484u},{88,2248991647899523u},{88,2393186051752562u},{88,2825769263311679u},{88,2969963667164718u},{88,3114158071017757u},{88,5074760911211202u},{88,5363149718917280u},{88,5651538526623358u},{88,5939927334329436u},{88,6228316142035514u},{88,10149521822422404u},{88,10726299437834560u},{88,11303077053246716u},{88,11879854668658872u},{88,12456632284071028u},{88,16233643560604879u},{88,17387198791429191u},{88,22606154106493432u},{88,27825109421557673u},{88,38839797667098311u},{88,45212308212986864u},{88,55650218843115346u},{88,73614195249956693u},{88,90424616425973728u},{88,103169637517750834u},{88,107235037601990763u},{88,111300437686230692u},{88,180849232851947456u},{88,197659654027964491u},{88,214470075203981526u},{88,941932406696011279u},{88,975004428208988030u},{88,1143657460808215699u},{88,1210899145512283839u},{88,1278140830216351979u},{88,1345382514920420119u},{88,1412624199624488259u},{88,2556281660432703958u},{88,2690765029840840238u},{88,3800801648297021867u},{88,5112563320865407916u},{88,6424324993433793965u},{88,7601603296594043734u},{88,8913364969162429783u},
{89,113847421212718u},{89,134078742972932u},{89,154310064733146u},{89,268157485945864u},{89,392120568038689u},{89,536314971891728u},{89,680509375744767u},{89,720972019265195u},{89,784241136077378u},{89,1009360826971273u},{89,1072629943783456u},{89,1135899060595639u},{89,1361018751489534u},{89,1424287868301717u},{89,2145259887566912u},{89,2722037502979068u},{89,3938861850615563u},{89,4290519775133824u},{89,7877723701231126u},{89,8229381625749387u},{89,8581039550267648u},{89,10888150011916272u},{89,11239807936434533u},{89,96951621981841484u},{89,97500442820898803u},{89,98049263659956122u},{89,104224611291305617u},{89,110948779761712431u},{89,117672948232119245u},{89,854518216580722697u},{89,908311564343977209u},{89,962104912107231721u},{89,1069691607633740745u},{89,1123484955396995257u},{89,1177278303160249769u},{89,1338658346450013305u},{89,1392451694213267817u},{89,1446245041976522329u},{89,2569729997373517586u},{89,2677316692900026610u},{89,3935285017705158147u},{89,5139459994747035172u},{89,6451221667315421221u},{89,7870570035410316294u},{89,8859571621399175271u},{89,9289918403505211367u},
{90,103731760332611u},{90,139633109194688u},{90,144194403853039u},{90,189218342031818u},{90,288388807706078u},{90,576777615412156u},{90,838387663572859u},{90,928435539930417u},{90,1018483416287975u},{90,1108531292645533u},{90,1505213155342573u},{90,1856871079860834u},{90,2478672633451769u},{90,6192414793173437u},{90,7255922147640191u},{90,9365869694749757u},{90,9571566190200786u},{90,9914690533807076u},{90,11149760060076975u},{90,12384829586346874u},{90,14511844295280382u},{90,15746913821550281u},{90,17873928530483789u},{90,23534589646423849u},{90,30258758116830663u},{90,47069179292847698u},{90,60517516233661326u},{90,92903289059425497u},{90,94138358585695396u},{90,95373428111965295u},{90,119799962941052753u},{90,121035032467322652u},{90,146696636822680009u},{90,213938321526748149u},{90,267731669290002661u},{90,294628343171629917u},{90,427876643053496298u},{90,535463338580005322u},{90,589256686343259834u},{90,614918290698617191u},{90,830091681751635239u},{90,855753286106992596u},{90,1045265072804653287u},{90,1070926677160010644u},{90,1096588281515368001u},{90,1204174977041877025u},{90,2141853354320021288u},{90,2382688349728396693u},{90,3346028331361898313u},{90,4309368312995399933u},{90,6692056662723796626u},{90,9428106981492157344u},{90,9530753398913586772u},{90,9633399816335016200u},
{91,106115132084783u},{91,108293054990962u},{91,169384248896966u},{91,203696683257595u},{91,373080932154561u},{91,407393366515190u},{91,441705800875819u},{91,780474298669751u},{91,814786733030380u},{91,849099167391009u},{91,883411601751638u},{91,943502889560925u},{91,977815323921554u},{91,1629573466060760u},{91,1663885900421389u},{91,1698198334782018u},{91,1732510769142647u},{91,2229952012015395u},{91,2298576880736653u},{91,3327771800842778u},{91,3396396669564036u},{91,4459904024030790u},{91,5557723812858173u},{91,6655543601685556u},{91,7959237996676713u},{91,8919808048061580u},{91,12350517151986245u},{91,14546156729641011u},{91,19074685622393059u},{91,23465964777702591u},{91,24701034303972490u},{91,29092313459282022u},{91,32523022563206687u},{91,38149371244786118u},{91,58184626918564044u},{91,90707649481770731u},{91,101960346844929593u},{91,105116556473969226u},{91,113213044208088455u},{91,116369253837128088u},{91,133248299881866381u},{91,155753694608184105u},{91,181415298963541462u},{91,203920693689859186u},{91,229582298045216543u},{91,240834995408375405u},{91,337168993571725567u},{91,433502991735075729u},{91,481669990816750810u},{91,674337987143451134u},{91,867005983470151458u},{91,950303215794302795u},{91,963339981633501620u},{91,976376747472700445u},{91,1130346373604844587u},{91,1348675974286902268u},{91,1515682366258245235u},{91,1734011966940302916u},{91,1926679963267003240u},{91,2093686355238346207u},{91,2864358340545147503u},{91,3635030325851948799u},{91,4187372710476692414u},{91,4791038303812150743u},{91,5728716681090295006u},{91,7270060651703897598u},{91,8374745420953384828u},{91,8978411014288843157u},{91,9582076607624301486u},
{92,128644912245447u},{92,162957346606076u},{92,291602258851523u},{92,325914693212152u},{92,360227127572781u},{92,445990402403079u},{92,651829386424304u},{92,720454255145562u},{92,754731067363642u},{92,754766689506191u},{92,891980804806158u},{92,1029194920106125u},{92,1166444657548641u},{92,1303658772848608u},{92,1440908510291124u},{92,1783961609612316u},{92,2470103430397249u},{92,3567923219224632u},{92,4940206860794498u},{92,6998632323149297u},{92,7135846438449264u},{92,9880413721588996u},{92,10017627836888963u},{92,10154841952188930u},{92,19760827443177992u},{92,22642608841617691u},{92,31150738921636821u},{92,36914301718516219u},{92,45285217683235382u},{92,48166999081675081u},{92,62301477843273642u},{92,76435956604872203u},{92,96333998163350162u},{92,98941351331189927u},{92,124602955686547284u},{92,178533517565101763u},{92,192667996326700324u},{92,303136473251649047u},{92,357067035130203526u},{92,385335992653400648u},{92,606272946503298094u},{92,660203508381852573u},{92,770671985306801296u},{92,824602547185355775u},{92,878533109063910254u},{92,1158615331128041709u},{92,1212545893006596188u},{92,1266476454885150667u},{92,1320407016763705146u},{92,1541343970613602592u},{92,2037148440191951963u},{92,2532952909770301334u},{92,6445458104518541823u},{92,7437067043675240565u},{92,8428675982831939307u},
{93,116648027969119u},{93,130358752856351u},{93,205838984021225u},{93,288174577629715u},{93,411677968042450u},{93,439135039959463u},{93,686141820784933u},{93,823355936084900u},{93,878270079918926u},{93,1015484195218893u},{93,1070398339052919u},{93,1152698310518860u},{93,1372283641569866u},{93,2030968390437786u},{93,4583407414443525u},{93,9413857231855069u},{93,9468628887118899u},{93,9935327865423022u},{93,9990099520686852u},{93,109425535657812817u},{93,110468476924948723u},{93,111511418192084629u},{93,164920509437071155u},{93,220936953849897446u},{93,274867515728451925u},{93,329841018874142310u},{93,385857463286968601u},{93,659682037748284620u},{93,715698482161110911u},{93,771714926573937202u},{93,827731370986763493u},{93,1043453618500981409u},{93,1099470062913807700u},{93,1155486507326633991u},{93,1431396964322221822u},{93,1487413408735048113u},{93,2974826817470096226u},{93,3910419312213968677u},{93,4902028251370667419u},{93,7820838624427937354u},{93,8868464007997462387u},{93,9652694229777030461u},{93,9804056502741334838u},{93,9955418775705639215u},
{94,104315499999120u},{94,109792665525503u},{94,115269831051886u},{94,159194021690597u},{94,164671187216980u},{94,225062496577389u},{94,230539662103772u},{94,323865208907577u},{94,329342374433960u},{94,455602158681161u},{94,461079324207544u},{94,653207583341537u},{94,658684748867920u},{94,911204317362322u},{94,916681482888705u},{94,1306415166683074u},{94,1311892332209457u},{94,1827885800251027u},{94,1833362965777410u},{94,2091359699798195u},{94,2612830333366148u},{94,3145255297986867u},{94,3666725931554820u},{94,7333451863109640u},{94,7843968165624827u},{94,21467930624708201u},{94,22510871891844107u},{94,32984101887414231u},{94,42935861249416402u},{94,45021743783688214u},{94,54973503145690385u},{94,65968203774828462u},{94,78005845671102445u},{94,97909364395106787u},{94,109947006291380770u},{94,131936407549656924u},{94,187952851962483215u},{94,219894012582761540u},{94,263872815099313848u},{94,319889259512140139u},{94,439788025165523080u},{94,527745630198627696u},{94,639778519024280278u},{94,759677284677663219u},{94,967056002054793887u},{94,982787755710254605u},{94,1399455803701943497u},{94,1519354569355326438u},{94,2798911607403886994u},{94,2918810373057269935u},{94,5717721980461156929u},{94,5837620746114539870u},
{95,131736949773584u},{95,183336296577741u},{95,257996734020785u},{95,263473899547168u},{95,366672593155482u},{95,418271939959639u},{95,526947799094336u},{95,624669327176267u},{95,733345186310964u},{95,836543879919278u},{95,945219739053975u},{95,1053895598188672u},{95,1249338654352534u},{95,1358014513487231u},{95,1466690372621928u},{95,1673087759838556u},{95,2411910111675903u},{95,2933380745243856u},{95,4084997871514459u},{95,5127939138650365u},{95,5866761490487712u},{95,7431173391191571u},{95,8169995743028918u},{95,10255878277300730u},{95,10994700629138077u},{95,11733522980975424u},{95,15601169134220489u},{95,21989401258276154u},{95,24814106144385313u},{95,31202338268440978u},{95,37590570392496643u},{95,43978802516552308u},{95,62404676536881956u},{95,75181140784993286u},{95,87957605033104616u},{95,97256441788905642u},{95,97301126564509669u},{95,99256424577541252u},{95,107122301405271611u},{95,150362281569986572u},{95,175915210066209232u},{95,231931654479035523u},{95,351830420132418464u},{95,583762074611453987u},{95,721347891933329229u},{95,772453748925774549u},{95,807827852262759151u},{95,892352514579157490u},{95,927726617916142092u},{95,1047625383569525033u},{95,1167524149222907974u},{95,1287422914876290915u},{95,1442695783866658458u},{95,2215149532792433007u},{95,2335048298445815948u},{95,4550197831238248955u},{95,4670096596891631896u},{95,9100395662476497910u},{95,9220294428129880851u},{95,9340193193783263792u},
{96,103198693608314u},{96,120552133014147u},{96,131506464066913u},{96,148859903472746u},{96,189043947810795u},{96,206397387216628u},{96,378087895621590u},{96,395441335027423u},{96,756175791243180u},{96,790882670054846u},{96,1025587827730073u},{96,1060294706541739u},{96,1781763618973253u},{96,2051175655460146u},{96,2824704886109159u},{96,4102351310920292u},{96,9698833313528148u},{96,9743518089132175u},{96,9898831592391709u},{96,9943516367995736u},{96,11498817823300197u},{96,14054110672922463u},{96,16609403522544729u},{96,22997635646600394u},{96,63682322961693089u},{96,73903494360182153u},{96,86479960329429922u},{96,89235251457915749u},{96,91990542586401576u},{96,109677594254893877u},{96,127364645923386178u},{96,147806988720364306u},{96,178470502915831498u},{96,257484582975258183u},{96,395070400297133425u},{96,514969165950516366u},{96,790140800594266850u},{96,910039566247649791u},{96,1029938331901032732u},{96,1106197120831973590u},{96,1149837097554415673u},{96,1226095886485356531u},{96,1820079132495299582u},{96,3640158264990599164u},{96,7400215295634581269u},{96,9863428233119237639u},{96,9884581199480461957u},{96,9983326998772620580u},
{97,108675859134697u},{97,110324457935984u},{97,151235158248636u},{97,184293438259015u},{97,219000317070681u},{97,302470316497272u},{97,370235475319317u},{97,436352035340075u},{97,604940632994544u},{97,672705791816589u},{97,740470950638634u},{97,996694196715231u},{97,1209881265989088u},{97,1345411583633178u},{97,1680940180140829u},{97,2219764253114615u},{97,2890821446129917u},{97,3361880360281658u},{97,3832939274433399u},{97,7194819634715057u},{97,7665878548866798u},{97,8807994656033841u},{97,9750112484337323u},{97,10692230312640805u},{97,15331757097733596u},{97,16744933840188819u},{97,21384460625281610u},{97,26023987410374401u},{97,30663514195467192u},{97,36245158808863465u},{97,42768921250563220u},{97,52047974820748802u},{97,58571737262448557u},{97,79014080059426685u},{97,104095949641497604u},{97,110619712083197359u},{97,117143474524897114u},{97,151504397677153615u},{97,158028160118853370u},{97,214715661724694963u},{97,221239424166394718u},{97,309532557796006985u},{97,316056320237706740u},{97,435955085891089681u},{97,442478848332789436u},{97,499166349938631029u},{97,632112640475413480u},{97,752011406128796421u},{97,987756216696649899u},{97,993390616471687356u},{97,998332699877262058u},{97,1384124046604209901u},{97,1504022812257592842u},{97,2888146858861802743u},{97,3008045624515185684u},{97,5776293717723605486u},{97,5896192483376988427u},{97,8930333157658973131u},{97,9170130688965739013u},{97,9409928220272504895u},{97,9649725751579270777u},{97,9889523282886036659u},
{98,133881718842803u},{98,147434750607212u},{98,160987782371621u},{98,349081628272060u},{98,376187691800878u},{98,389740723565287u},{98,443952850622923u},{98,498164977680559u},{98,779481447130574u},{98,887905701245846u},{98,996329955361118u},{98,1142116107167043u},{98,1250540361282315u},{98,1358964615397587u},{98,1775811402491692u},{98,2138446062528161u},{98,2501080722564630u},{98,4276892125056322u},{98,5581644613396273u},{98,7249031761772693u},{98,8553784250112644u},{98,9858536738452595u},{98,11163289226792546u},{98,13193311035205435u},{98,14498063523545386u},{98,15802816011885337u},{98,17107568500225288u},{98,18412320988565239u},{98,27691374558750821u},{98,28996127047090772u},{98,30300879535430723u},{98,31605632023770674u},{98,32910384512110625u},{98,34215137000450576u},{98,59297006582521495u},{98,60601759070861446u},{98,61906511559201397u},{98,63211264047541348u},{98,64516016535881299u},{98,65820769024221250u},{98,121203518141722892u},{98,123813023118402794u},{98,126422528095082696u},{98,129032033071762598u},{98,247626046236805588u},{98,252845056190165392u},{98,372743821843548333u},{98,377962831796908137u},{98,505690112380330784u},{98,625588878033713725u},{98,755925663593816274u},{98,870605419293839411u},{98,891481459107278627u},{98,990504184947222352u},{98,1011380224760661568u},{98,1131278990414044509u},{98,1251177756067427450u},{98,1371076521720810391u},{98,1511851327187632548u},{98,1881985644054500979u},{98,2262557980828089018u},{98,2882927848908442939u},{98,3763971288109001958u},{98,5145485829736531957u},{98,6907572708137649995u},{98,7527942576218003916u},{98,8148312444298357837u},
{99,110475420947639u},{99,139632651308824u},{99,220950841895278u},{99,250108072256463u},{99,279265302617648u},{99,471058914151741u},{99,500216144512926u},{99,942117828303482u},{99,971275058664667u},{99,1000432289025852u},{99,1029589519387037u},{99,1058746749748222u},{99,1942550117329334u},{99,1971707347690519u},{99,2000864578051704u},{99,2638662207041087u},{99,3943414695381038u},{99,5277324414082174u},{99,6582076902422125u},{99,7886829390762076u},{99,9191581879102027u},{99,9854875299495908u},{99,9949669868492837u},{99,9993338573388459u},{99,10554648828164348u},{99,11859401316504299u},{99,13164153804844250u},{99,14468906293184201u},{99,15773658781524152u},{99,23718802633008598u},{99,26328307609688500u},{99,47437605266017196u},{99,52656615219377000u},{99,72461160387365745u},{99,77680170340725549u},{99,85508685270765255u},{99,94875210532034392u},{99,105313230438754000u},{99,125117775606742745u},{99,144922320774731490u},{99,155360340681451098u},{99,250235551213485490u},{99,500471102426970980u},{99,780949218715164823u},{99,1000942204853941960u},{99,1040551295189919450u},{99,1141717010320764117u},{99,1181326100656741607u},{99,1220935190992719097u},{99,1381514541627529999u},{99,2182268305510683567u},{99,2763029083255059998u},{99,4364536611021367134u},{99,8729073222042734268u},{99,9710210881728687483u},
{100,102592808043035u},{100,108424254115272u},{100,114255700187509u},{100,986871536756879u},{100,988362968598016u},{100,989854400439153u},{100,991345832280290u},{100,992837264121427u},{100,1269763811906529u},{100,1293089596195477u},{100,1316415380484425u},{100,1339741164773373u},{100,1363066949062321u},{100,2586179192390954u},{100,2632830760968850u},{100,2679482329546746u},{100,3937583249308801u},{100,5265661521937700u},{100,6617065578855547u},{100,7875166498617602u},{100,8015121204351290u},{100,9086615849801761u},{100,9273222124113345u},{100,10531323043875400u},{100,14492232077473149u},{100,15750332997235204u},{100,17101737054153051u},{100,21062646087750800u},{100,25023555121348549u},{100,28984464154946298u},{100,34203474108306102u},{100,38164383141903851u},{100,42125292175501600u},{100,50047110242697098u},{100,54008019276294847u},{100,57968928309892596u},{100,80289675317405451u},{100,84250584351003200u},{100,88211493384600949u},{100,100094220485394196u},{100,104055129518991945u},{100,108016038552589694u},{100,176422986769201898u},{100,184344804836397396u},{100,192266622903592894u},{100,200188440970788392u},{100,208110259037983890u},{100,216032077105179388u},{100,384533245807185788u},{100,400376881941576784u},{100,416220518075967780u},{100,572838959677180933u},{100,604526231945962925u},{100,800753763883153568u},{100,996981295820344211u},{100,1001917413498554365u},{100,1003085194144842902u},{100,1004252974791131439u},{100,1008021311823053056u},{100,1209052463891925850u},{100,1405279995829116493u},{100,1601507527766307136u},{100,2158502851309097073u},{100,4576607779092948773u},{100,5361517906841711345u},{100,6146428034590473917u},{100,6931338162339236489u},{100,7716248290087999061u},{100,8634011405236388292u},{100,8893613481711142919u},{100,9153215558185897546u},
{101,239957291807937u},{101,263283076096885u},{101,286608860385833u},{101,526566152193770u},{101,778186336146181u},{101,801512120435129u},{101,894815257590921u},{101,959829167231748u},{101,1053132304387540u},{101,1304752488339951u},{101,1556372672292362u},{101,1603024240870258u},{101,1854644424822669u},{101,2106264608775080u},{101,2357884792727491u},{101,2609504976679902u},{101,3709288849645338u},{101,4212529217550160u},{101,4715769585454982u},{101,7418577699290676u},{101,8425058435100320u},{101,9431539170909964u},{101,11379486732888425u},{101,12385967468698069u},{101,12889207836602891u},{101,16850116870200640u},{101,20811025903798389u},{101,24771934937396138u},{101,25778415673205782u},{101,33700233740401280u},{101,41622051807596778u},{101,49543869874792276u},{101,53504778908390025u},{101,67400467480802560u},{101,83244103615193556u},{101,100255520395873089u},{101,100515576034436397u},{101,100775631672999705u},{101,120905246389192585u},{101,166488207230387112u},{101,241810492778385170u},{101,332976414460774224u},{101,346872103033186759u},{101,483620985556770340u},{101,588682595811571929u},{101,812701504893587642u},{101,862180360858739091u},{101,967241971113540680u},{101,1072303581368342269u},{101,1177365191623143858u},{101,2144607162736684538u},{101,2824455680230645521u},{101,3034578900740248699u},{101,4289214325473369076u},{101,5179186063476933237u},{101,6749006318974458381u},{101,8578428650946738152u},{101,9468400388950302313u},
{102,105313230438754u},{102,110971075941747u},{102,146306953513657u},{102,151964799016650u},{102,210626460877508u},{102,292613907027314u},{102,298271752530307u},{102,421252921755016u},{102,508898213407815u},{102,754860551857233u},{102,842505843510032u},{102,930151135162831u},{102,1017796426815630u},{102,1082810336456457u},{102,1105441718468429u},{102,1170455628109256u},{102,1193087010121228u},{102,1258100919762055u},{102,1685011687020064u},{102,2275897346577685u},{102,3370023374040128u},{102,4551794693155370u},{102,6740046748080256u},{102,9519184462562763u},{102,10039295739689379u},{102,10064807358096440u},{102,10700955781678005u},{102,13480093496160512u},{102,16259231210643019u},{102,19038368925125526u},{102,21401911563356010u},{102,24181049277838517u},{102,26960186992321024u},{102,29739324706803531u},{102,42803823126712020u},{102,45582960841194527u},{102,48362098555677034u},{102,51141236270159541u},{102,53920373984642048u},{102,85607646253424040u},{102,91165921682389054u},{102,96724197111354068u},{102,102282472540319082u},{102,107840747969284096u},{102,193448394222708136u},{102,287393453619579697u},{102,298510004477509725u},{102,386896788445416272u},{102,480841847842287833u},{102,679848517493960983u},{102,773793576890832544u},{102,867738636287704105u},{102,1359697034987921966u},{102,2249668772991486127u},{102,2437558891785229249u},{102,3421475689185664971u},{102,4875117783570458498u},{102,5765089521574022659u},
{103,101779642681563u},{103,110256148207334u},{103,121571839213320u},{103,155498386773841u},{103,163974892299612u},{103,203559285363126u},{103,251620183952411u},{103,359057672136967u},{103,407118570726252u},{103,455179469315537u},{103,503240367904822u},{103,590885659557621u},{103,687007456736191u},{103,814237141452504u},{103,910358938631074u},{103,1000884466678962u},{103,1003682601244303u},{103,1006480735809644u},{103,1181771319115242u},{103,1597366395367265u},{103,1820717877262148u},{103,2140191156335601u},{103,2363542638230484u},{103,3418084272629413u},{103,3641435754524296u},{103,4057030830776319u},{103,4280382312671202u},{103,4503733794566085u},{103,6836168545258826u},{103,7059520027153709u},{103,7282871509048592u},{103,8114061661552638u},{103,8560764625342404u},{103,9007467589132170u},{103,9454170552921936u},{103,11339902339824911u},{103,14119040054307418u},{103,17121529250684808u},{103,22679804679649822u},{103,28238080108614836u},{103,31463920786887109u},{103,34243058501369616u},{103,45359609359299644u},{103,48585450037571917u},{103,59702000895501945u},{103,68486117002739232u},{103,76376827182396987u},{103,82828508538941533u},{103,90719218718599288u},{103,97170900075143834u},{103,105061610254801589u},{103,119404001791003890u},{103,144862944185136219u},{103,173547727257540821u},{103,238808003582007780u},{103,281835178190614683u},{103,347095454515081642u},{103,412355730839548601u},{103,477616007164015560u},{103,694190909030163284u},{103,759451185354630243u},{103,824711461679097202u},{103,889971738003564161u},{103,1002576275405977650u},{103,1004710870293182569u},{103,1020492290652498079u},{103,1022626885539702998u},{103,1453642094384793527u},{103,1518902370709260486u},{103,1584162647033727445u},{103,1649422923358194404u},{103,2090463437270147607u},{103,3037804741418520972u},{103,3168325294067454890u},{103,4115666598215828255u},{103,4180926874540295214u},{103,5258788731337602497u},{103,7153471339634349227u},{103,8231333196431656510u},{103,8361853749080590428u},{103,9178674500580029875u},{103,9700756711175765547u},{103,9995495252079469322u},
{104,100055605935997u},{104,100219809595493u},{104,100582392117166u},{104,100746595776662u},{104,242575841330597u},{104,281024560202025u},{104,319473279073453u},{104,357921997944881u},{104,562049120404050u},{104,638946558146906u},{104,831190152504046u},{104,900746758913217u},{104,970303365322388u},{104,1277893116293812u},{104,1501244598188695u},{104,1801493517826434u},{104,2178639875207029u},{104,3002489196377390u},{104,3602987035652868u},{104,4357279750414058u},{104,5181129071584419u},{104,7136417464896565u},{104,7205974071305736u},{104,8714559500828116u},{104,8784116107237287u},{104,10362258143168838u},{104,11940400179100389u},{104,22302658322269227u},{104,23880800358200778u},{104,25458942394132329u},{104,46183458680470005u},{104,47761600716401556u},{104,49339742752333107u},{104,92366917360940010u},{104,93945059396871561u},{104,95523201432803112u},{104,97101343468734663u},{104,100257627540597765u},{104,101835769576529316u},{104,125786126541139265u},{104,128942410613002367u},{104,187890118793743122u},{104,191046402865606224u},{104,251572253082278530u},{104,316832529406745489u},{104,382092805731212448u},{104,444196797983816305u},{104,633665058813490978u},{104,823133319643165651u},{104,829445887786891855u},{104,888393595967632610u},{104,947341304148373365u},{104,1267330117626981956u},{104,1646266639286331302u},{104,1835734900116005975u},{104,2534660235253963912u},{104,3292533278572662604u},{104,3671469800232011950u},{104,4370395135369969887u},{104,6585066557145325208u},{104,7342939600464023900u},{104,8041864935601981837u},{104,8740790270739939774u},{104,9439715605877897711u},
{105,110941657814073u},{105,112409824080810u},{105,113877990347547u},{105,115346156614284u},{105,224819648161620u},{105,300248919637739u},{105,374210024847121u},{105,449639296323240u},{105,525068567799359u},{105,678863443285071u},{105,748420049694242u},{105,899278592646480u},{105,1050137135598718u},{105,1200995678550956u},{105,1427283492979313u},{105,2401991357101912u},{105,2854566985958626u},{105,3829274850081225u},{105,7658549700162450u},{105,9236691736094001u},{105,10072286387398258u},{105,16895241436256451u},{105,18473383472188002u},{105,20051525508119553u},{105,25157225308227853u},{105,36946766944376004u},{105,40103051016239106u},{105,50314450616455706u},{105,62103992252603857u},{105,73893533888752008u},{105,88003764945459004u},{105,88839359596763261u},{105,89674954248067518u},{105,99793306581607155u},{105,100628901232911412u},{105,112418442869059563u},{105,124207984505207714u},{105,165889177557378371u},{105,177678719193526522u},{105,189468260829674673u},{105,201257802465822824u},{105,343567896750904893u},{105,355357438387053044u},{105,367146980023201195u},{105,378936521659349346u},{105,390726063295497497u},{105,687135793501809786u},{105,710714876774106088u},{105,734293960046402390u},{105,757873043318698692u},{105,781452126590994994u},{105,1468587920092804780u},{105,2167513255230762717u},{105,2214671421775355321u},{105,2937175840185609560u},{105,3636101175323567497u},{105,5128268178688668579u},{105,7272202350647134994u},{105,9463294689150194013u},
{106,101490114519703u},{106,107362779586651u},{106,118925034841706u},{106,124797699908654u},{106,133423622630235u},{106,179855718529296u},{106,226287814428357u},{106,237850069683412u},{106,313279341159531u},{106,359711437058592u},{106,406143532957653u},{106,452575628856714u},{106,719422874117184u},{106,765854970016245u},{106,812287065915306u},{106,1067572055920721u},{106,1531709940032490u},{106,1624574131830612u},{106,1995847824144259u},{106,2135144111841442u},{106,2599281995953211u},{106,3063419880064980u},{106,3527557764176749u},{106,5198563991906422u},{106,5662701876018191u},{106,6126839760129960u},{106,6590977644241729u},{106,8540576447365768u},{106,8633257564285049u},{106,9468852215589306u},{106,9561533332508587u},{106,11325403752036382u},{106,12253679520259920u},{106,14945825708011253u},{106,15874101476234791u},{106,19958661316321431u},{106,22650807504072764u},{106,27199505228271173u},{106,42609468820394195u},{106,54399010456542346u},{106,73429396004640239u},{106,85218937640788390u},{106,97008479276936541u},{106,108798020913084692u},{106,120587562549232843u},{106,125971854924735509u},{106,146858792009280478u},{106,170437875281576780u},{106,258348959110116503u},{106,293717584018560956u},{106,405207751119396981u},{106,452365917663989585u},{106,587435168037121912u},{106,746083501682550541u},{106,904731835327979170u},{106,1003411503907524225u},{106,1029032500950106165u},{106,1033395836440466012u},{106,1174870336074243824u},{106,1333518669719672453u},{106,1492167003365101082u},{106,2349740672148487648u},{106,2667037339439344906u},{106,3906239676069832151u},{106,4223536343360689409u},{106,4699481344296975296u},{106,5938683680927462541u},{106,6573277015509177057u},{106,8447072686721378818u},{106,8734385021479294289u},{106,8794353686545177863u},{106,9398962688593950592u},
{107,100167694708837u},{107,106738898104188u},{107,153170994003249u},{107,199603089902310u},{107,250660087903393u},{107,306341988006498u},{107,362023888109603u},{107,557002075909891u},{107,612683976012996u},{107,668365876116101u},{107,872593868120433u},{107,983957668326643u},{107,1225367952025992u},{107,1578142035931551u},{107,2097961820146425u},{107,2450735904051984u},{107,2803509987957543u},{107,3620421955974871u},{107,4901471808103968u},{107,5607019975915086u},{107,7240843911949742u},{107,8521893764078839u},{107,9802943616207936u},{107,11083993468337033u},{107,11214039951830172u},{107,12495089803959269u},{107,15762737676028581u},{107,17043787528157678u},{107,18324837380286775u},{107,32806525204186259u},{107,34087575056315356u},{107,35368624908444453u},{107,68175150112630712u},{107,90473183532797917u},{107,100721582349830693u},{107,102522818135932346u},{107,105084917840190540u},{107,111490167100836025u},{107,136350300225261424u},{107,180946367065595834u},{107,292436534166431859u},{107,361892734131191668u},{107,475945000936285887u},{107,654329268297623527u},{107,723785468262383336u},{107,921905669339629987u},{107,951890001872571774u},{107,1060818069269149605u},{107,1308658536595247054u},{107,2121636138538299210u},{107,2508389005793916277u},{107,3004069940446111175u},{107,4134344209680020589u},{107,6008139880892222350u},{107,7386254617452229213u},{107,8268688419360041178u},{107,9151122221267853143u},
{108,104000571818743u},{108,115136951839364u},{108,126273331859985u},{108,375046843946801u},{108,419592364029285u},{108,464137884111769u},{108,750093687893602u},{108,839184728058570u},{108,928275768223538u},{108,1147413291881645u},{108,1236504332046613u},{108,1678369456117140u},{108,1986598019940215u},{108,2473008664093226u},{108,3664967476057355u},{108,5254245892009527u},{108,6048885099985613u},{108,7329934952114710u},{108,10460356187182257u},{108,10508491784019054u},{108,10556627380855851u},{108,14659869904229420u},{108,19119476588262861u},{108,22298033420167205u},{108,31217246788234087u},{108,40136460156300969u},{108,44596066840334410u},{108,62434493576468174u},{108,80272920312601938u},{108,85397119721118326u},{108,87294626700893573u},{108,89192133680668820u},{108,91089640660444067u},{108,92987147640219314u},{108,122971480173161101u},{108,124868987152936348u},{108,158648333645428629u},{108,160545840625203876u},{108,212163613853829921u},{108,283517320798364977u},{108,317296667290857258u},{108,424327227707659842u},{108,600813988089222235u},{108,848654455415319684u},{108,1025141215796882077u},{108,1201627976178444470u},{108,1697308910830639368u},{108,1873795671212201761u},{108,2050282431593764154u},{108,2579742712738451333u},{108,4277051623569090701u},{108,4453538383950653094u},{108,4630025144332215487u},{108,4982998665095340273u},{108,5159485425476902666u},{108,5335972185858465059u},{108,8377616486756619009u},{108,8554103247138181402u},{108,8730590007519743795u},{108,9789510569809118153u},{108,9965997330190680546u},
{109,101018665487988u},{109,111363800206210u},{109,118118858170119u},{109,128463992888341u},{109,167836945611714u},{109,229482658376329u},{109,256927985776682u},{109,274028178458813u},{109,335673891223428u},{109,397319603988043u},{109,458965316752658u},{109,520611029517273u},{109,548056356917626u},{109,609702069682241u},{109,671347782446856u},{109,794639207976086u},{109,856284920740701u},{109,917930633505316u},{109,1027711943106728u},{109,1041222059034546u},{109,1054732174962364u},{109,1219404139364482u},{109,1342695564893712u},{109,1465986990422942u},{109,1589278415952172u},{109,1712569841481402u},{109,2685391129787424u},{109,2931973980845884u},{109,3178556831904344u},{109,4459606684033441u},{109,5863947961691768u},{109,7268289239350095u},{109,8919213368066882u},{109,9830388943608289u},{109,9905544772300722u},{109,11727895923383536u},{109,13625402903158783u},{109,14536578478700190u},{109,16434085458475437u},{109,17838426736133764u},{109,23455791846767072u},{109,25353298826542319u},{109,30970663937175627u},{109,32868170916950874u},{109,35676853472267528u},{109,43191725562676083u},{109,50706597653084638u},{109,71353706944535056u},{109,75073565075393117u},{109,86383451125352166u},{109,90103309256210227u},{109,101413195306169276u},{109,105133053437027337u},{109,120162797617844447u},{109,135192541798661557u},{109,142707413889070112u},{109,161457016200745283u},{109,191516504562379503u},{109,240325595235688894u},{109,304164430089815395u},{109,383033009124759006u},{109,401782611436434177u},{109,480651190471377788u},{109,608328860179630790u},{109,784815620561193183u},{109,961302380942755576u},{109,1216657720359261580u},{109,1393144480740823973u},{109,1569631241122386366u},{109,2099091522267073545u},{109,2786288961481647946u},{109,2962775721863210339u},{109,3139262482244772732u},{109,4021696284152584697u},{109,4198183044534147090u},{109,6631498485252670250u},{109,6984472006015795036u},{109,7337445526778919822u},{109,8043392568305169394u},{109,8396366089068294180u},{109,8925826370212981359u},{109,9631773411739230931u},
{110,100239209342996u},{110,101420182717891u},{110,102601156092786u},{110,234253708505537u},{110,258911993611383u},{110,861859005329715u},{110,937014834022148u},{110,960492145753099u},{110,1256391567023251u},{110,1355024707446635u},{110,1453657847870019u},{110,1552290988293403u},{110,1650924128716787u},{110,2710049414893270u},{110,2907315695740038u},{110,3104581976586806u},{110,4311656973398365u},{110,4706189535091901u},{110,5814631391480076u},{110,7120339528715019u},{110,7909404652102091u},{110,8623313946796730u},{110,9412379070183802u},{110,10126288364878441u},{110,11629262782960152u},{110,13132237201041863u},{110,16532718598898821u},{110,19538667435062243u},{110,45803141837145969u},{110,51815039509472813u},{110,60832886017963079u},{110,72856681362616767u},{110,102202260429556348u},{110,103630079018945626u},{110,105057897608334904u},{110,121665772035926158u},{110,164462965036908705u},{110,188510555726216081u},{110,243331544071852316u},{110,286128737072834863u},{110,377021111452432162u},{110,419818304453414709u},{110,486663088143704632u},{110,663149848525267025u},{110,839636608906829418u},{110,871837825152547555u},{110,882433801907811965u},{110,893029778663076375u},{110,962730199532144854u},{110,973326176287409264u},{110,983922153042673674u},{110,1326299697050534050u},{110,1679273217813658836u},{110,2208733498958346015u},{110,2652599394101068100u},{110,3358546435627317672u},{110,4861332893059414115u},{110,5305198788202136200u},{110,6717092871254635344u},{110,7866905807923607001u},{110,9722665786118828230u},
{111,123291425529230u},{111,147713515960097u},{111,172371801065943u},{111,271004941489327u},{111,542009882978654u},{111,862331394679673u},{111,1084019765957308u},{111,1256863956373209u},{111,1305708137234943u},{111,1724662789359346u},{111,2168039531914616u},{111,3449325578718692u},{111,4508923254245133u},{111,7958248832963825u},{111,9017846508490266u},{111,10077444184016707u},{111,10423132564848509u},{111,10445665097879544u},{111,10791353478711346u},{111,15916497665927650u},{111,16976095341454091u},{111,32892593007381741u},{111,33952190682908182u},{111,65785186014763482u},{111,66844783690289923u},{111,131570372029526964u},{111,132629969705053405u},{111,133689567380579846u},{111,176486760381562393u},{111,265259939410106810u},{111,352973520763124786u},{111,441746699791669203u},{111,530519878820213620u},{111,619293057848758037u},{111,705947041526249572u},{111,794720220554793989u},{111,883493399583338406u},{111,1061039757640427240u},{111,1149812936668971657u},{111,1238586115697516074u},{111,1766986799166676812u},{111,1944533157223765646u},{111,2122079515280854480u},{111,3889066314447531292u},{111,4244159030561708960u},{111,6099919008756930189u},{111,7778132628895062584u},{111,8488318061123417920u},{111,9456346249033194979u},
{112,123055230854251u},{112,152928606591241u},{112,157435113197448u},{112,197266280846768u},{112,201772787452975u},{112,241603955102295u},{112,310363719788689u},{112,399039068299743u},{112,487714416810797u},{112,616220932971171u},{112,620727439577378u},{112,793571629993279u},{112,798078136599486u},{112,970922327015387u},{112,975428833621594u},{112,1236948372548549u},{112,1591649766592765u},{112,1946351160636981u},{112,2473896745097098u},{112,3183299533185530u},{112,3892702321273962u},{112,4242897208711971u},{112,5307001390844619u},{112,6366599066371060u},{112,7426196741897501u},{112,8485794417423942u},{112,8835989304861951u},{112,9554405106162797u},{112,9895586980388392u},{112,11673600457215679u},{112,12733198132742120u},{112,13792795808268561u},{112,14852393483795002u},{112,25466396265484240u},{112,26525993941010681u},{112,27585591616537122u},{112,35721191146523055u},{112,53051987882021362u},{112,71442382293046110u},{112,86653983677491535u},{112,90892374379597299u},{112,106103975764042724u},{112,125553967850593913u},{112,142884764586092220u},{112,192757959441534259u},{112,212207951528085448u},{112,231657943614636637u},{112,404965910969619707u},{112,424415903056170896u},{112,443865895142722085u},{112,829381814025790603u},{112,848831806112341792u},{112,868281798198892981u},{112,1106674561793763515u},{112,1362020888197057105u},{112,1697663612224683584u},{112,2033306336252310063u},{112,2388399052366487731u},{112,2724041776394114210u},{112,3059684500421740689u},{112,6790654448898734336u},{112,7461939896953987294u},{112,8133225345009240252u},{112,9140153517092119689u},{112,9553596209465950924u},{112,9655839028454963135u},{112,9967038901839782159u},
{113,101148088647125u},{113,103561035888232u},{113,105654595253332u},{113,108067542494439u},{113,125046789236717u},{113,156911723356173u},{113,161418229962380u},{113,193283164081836u},{113,245587071867227u},{113,318329953318553u},{113,391072834769879u},{113,636659906637106u},{113,850382044384877u},{113,914111912623789u},{113,932137939048617u},{113,982348287468908u},{113,1273319813274212u},{113,2546639626548424u},{113,4033681577570407u},{113,5093279253096848u},{113,6152876928623289u},{113,7144238229304611u},{113,8067363155140814u},{113,9263433580357493u},{113,10186558506193696u},{113,11109683432029899u},{113,12305753857246578u},{113,13228878783082781u},{113,14288476458609222u},{113,17330796735498307u},{113,20373117012387392u},{113,23415437289276477u},{113,28576952917218444u},{113,34661593470996614u},{113,54111585557547803u},{113,57153905834436888u},{113,69323186941993228u},{113,88773179028544417u},{113,100942460136100757u},{113,108223171115095606u},{113,114307811668873776u},{113,158096365970537645u},{113,177546358057088834u},{113,221334912358752703u},{113,272404177639411421u},{113,355092716114177668u},{113,398881270415841537u},{113,462119816804056595u},{113,544808355278822842u},{113,797762540831683074u},{113,880451079306449321u},{113,914462493350990208u},{113,924239633608113190u},{113,997151031825756455u},{113,1006928172082879437u},{113,1089616710557645684u},{113,1678213620138132395u},{113,1760902158612898642u},{113,2013856344165758874u},{113,2096544882640525121u},{113,2179233421115291368u},{113,3439115778751031037u},{113,3521804317225797284u},{113,4110401226806283995u},{113,4193089765281050242u},{113,4275778303755816489u},{113,6960920095976828321u},{113,7043608634451594568u},{113,8220802453612567990u},{113,8386179530562100484u},{113,8551556607511632978u},
{114,129134583969904u},{114,140979256296445u},{114,213722137747771u},{114,281958512592890u},{114,326505542784927u},{114,495680650340661u},{114,834030865452129u},{114,991361300681322u},{114,1148691735910515u},{114,1285164485600753u},{114,1668061730904258u},{114,2276525786282075u},{114,6693104609155987u},{114,7910032719911621u},{114,9126960830667255u},{114,10302173570344979u},{114,10323031255883934u},{114,10343888941422889u},{114,10364746626961844u},{114,26751560751084993u},{114,31619273194107529u},{114,36486985637130065u},{114,53503121502169986u},{114,63238546388215058u},{114,87556250917788783u},{114,92423963360811319u},{114,97312533489372810u},{114,126477092776430116u},{114,175112501835577566u},{114,184847926721622638u},{114,267536465196388885u},{114,335642724027626479u},{114,369695853443245276u},{114,452384391918011523u},{114,671285448055252958u},{114,739391706886490552u},{114,822080245361256799u},{114,904768783836023046u},{114,987457322310789293u},{114,1259882357635739669u},{114,1342570896110505916u},{114,1644160490722513598u},{114,3288320981445027196u},{114,3974188709143808807u},{114,5015170010642307041u},{114,6221528389090337769u},{114,6576641962890054392u},{114,7948377418287617614u},{114,8303490992087334237u},{114,9675226447484897459u},
{115,108611867929365u},{115,112783405037156u},{115,116954942144947u},{115,121126479252738u},{115,221395272966521u},{115,225566810074312u},{115,229738347182103u},{115,233909884289894u},{115,451133620148624u},{115,455305157256415u},{115,459476694364206u},{115,463648231471997u},{115,906438777405039u},{115,910610314512830u},{115,914781851620621u},{115,918953388728412u},{115,1817049091917869u},{115,1821220629025660u},{115,1825392166133451u},{115,1829563703241242u},{115,3642441258051320u},{115,3646612795159111u},{115,3650784332266902u},{115,3654955869374693u},{115,7289054053210431u},{115,7293225590318222u},{115,7297397127426013u},{115,7301568664533804u},{115,9697881052074953u},{115,9706224126290535u},{115,9714567200506117u},{115,9731253348937281u},{115,9739596423152863u},{115,9747939497368445u},{115,14586451180636444u},{115,14594794254852026u},{115,19462506697874562u},{115,24317704529573725u},{115,29189588509704052u},{115,34044786341403215u},{115,48635409059147450u},{115,53507293039277777u},{115,58379177019408104u},{115,72978142811367921u},{115,97270818118294900u},{115,107014586078555554u},{115,111886470058685881u},{115,214029172157111108u},{115,218901056137241435u},{115,428058344314222216u},{115,432930228294352543u},{115,437802112274482870u},{115,860988572608574759u},{115,865860456588705086u},{115,1386351107337954203u},{115,1731720913177410172u},{115,2077090719016866141u},{115,2417588640876191783u},{115,3108328252555103721u},{115,3799067864234015659u},{115,4154181438033732282u},{115,4835177281752383566u},{115,5881030467231012127u},{115,7262509690588836003u},{115,8643988913946659879u},{115,9334728525625571817u},{115,9670354563504767132u},
{116,103575642774656u},{116,107747179882447u},{116,177950525794775u},{116,182122062902566u},{116,186293600010357u},{116,360072588697341u},{116,364244125805132u},{116,368415662912923u},{116,724316714502473u},{116,728488251610264u},{116,732659788718055u},{116,736831325825846u},{116,1452804966112737u},{116,1456976503220528u},{116,1461148040328319u},{116,1465319577436110u},{116,1941244825258107u},{116,1949587899473689u},{116,2913953006441056u},{116,2922296080656638u},{116,4863540905914745u},{116,6808957268280643u},{116,8746030556430959u},{116,9727081811829490u},{116,10708133067228021u},{116,12636863281162755u},{116,13617914536561286u},{116,16544382154325715u},{116,19454163623658980u},{116,24326047603789307u},{116,27235829073122572u},{116,38908327247317960u},{116,43780211227448287u},{116,82688538474766247u},{116,87560422454896574u},{116,102176074395287555u},{116,104071432312359961u},{116,108943316292490288u},{116,170248960929662821u},{116,175120844909793148u},{116,273372714283486579u},{116,350241689819586296u},{116,417366897395425359u},{116,479620220991134095u},{116,901859002366689781u},{116,931090306247471743u},{116,959240441982268190u},{116,998215513823310806u},{116,5190290855552100189u},{116,5324541270703778315u},{116,5458791685855456441u},{116,7818998887116069815u},{116,8087499717419426067u},
{117,142360420635820u},{117,146531957743611u},{117,150703494851402u},{117,288892378379431u},{117,293063915487222u},{117,297235452595013u},{117,386580350208505u},{117,586127830974444u},{117,773160700417010u},{117,972708181182949u},{117,1172255661948888u},{117,1355116994283663u},{117,1371803142714827u},{117,1945416362365898u},{117,2527372656232551u},{117,3308876430865143u},{117,3890832724731796u},{117,4472789018598449u},{117,5054745312465102u},{117,6617752861730286u},{117,7781665449463592u},{117,8945578037196898u},{117,10109490624930204u},{117,10325724254127307u},{117,11273403212663510u},{117,13235505723460572u},{117,15563330898927184u},{117,20435214879057511u},{117,31126661797854368u},{117,35998545777984695u},{117,52725789264645185u},{117,71997091555969390u},{117,81524625887032941u},{117,95491576939832613u},{117,95924044198226819u},{117,96356511456621025u},{117,153521717443002331u},{117,163049251774065882u},{117,191848088396453638u},{117,307043434886004662u},{117,383696176792907276u},{117,681212077347848387u},{117,767392353585814552u},{117,796407423837399411u},{117,901642768737492678u},{117,930657838989077537u},{117,1064908254140755663u},{117,1199158669292433789u},{117,1362424154695696774u},{117,1563799777423213963u},{117,2129816508281511326u},{117,2695833239139808689u},{117,3127599554846427926u},{117,3693616285704725289u},{117,4259633016563022652u},{117,4825649747421320015u},{117,5391666478279617378u},{117,6255199109692855852u},{117,6821215840551153215u},{117,7387232571409450578u},{117,8519266033126045304u},{117,9085282763984342667u},{117,9651299494842640030u},
{118,113888336508656u},{118,122231410724238u},{118,154632140083402u},{118,191204406550357u},{118,309264280166804u},{118,345836546633759u},{118,618528560333608u},{118,691673093267518u},{118,981051255398531u},{118,1054195788332441u},{118,1057395757937068u},{118,1124140351661724u},{118,1127340321266351u},{118,1130540290870978u},{118,1599579815732139u},{118,2254680642532702u},{118,7199709155596939u},{118,9158611696789374u},{118,9896456965337728u},{118,10545157852929037u},{118,14399418311193878u},{118,16218431725727747u},{118,21090315705858074u},{118,28798836622387756u},{118,42180631411716148u},{118,57597673244775512u},{118,80723235994364558u},{118,82542249408898427u},{118,84361262823432296u},{118,86180276237966165u},{118,115195346489551024u},{118,117014359904084893u},{118,266681816888822383u},{118,366460121545314043u},{118,631322925019602557u},{118,732920243090628086u},{118,965129949484264003u},{118,1066727267555289532u},{118,1095742337806874391u},{118,1364243168110230643u},{118,1930259898968528006u},{118,2728486336220461286u},{118,3860519797937056012u},{118,5456972672440922572u},{118,7721039595874112024u},{118,9361059647945834395u},{118,9564254284087885453u},
{119,100345104263092u},{119,104459587951856u},{119,107659557556483u},{119,111774041245247u},{119,479553947759179u},{119,538069574106307u},{119,596585200453435u},{119,655100826800563u},{119,941279019326949u},{119,959107895518358u},{119,976936771709767u},{119,1076139148212614u},{119,1193170400906870u},{119,1643466535492485u},{119,1760497788186741u},{119,2152278296425228u},{119,2836636936399355u},{119,3286933070984970u},{119,3854260458264841u},{119,6123570007384325u},{119,6573866141969940u},{119,7708520916529682u},{119,9527534331063551u},{119,10428126600234781u},{119,12247140014768650u},{119,15417041833059364u},{119,17236055247593233u},{119,22675266615003431u},{119,24494280029537300u},{119,34472110495186466u},{119,45350533230006862u},{119,52608758011950929u},{119,105217516023901858u},{119,112475740805845925u},{119,152387062668442589u},{119,166903512232330723u},{119,224951481611691850u},{119,333807024464661446u},{119,406371443407910707u},{119,566016730858297363u},{119,711145568744795885u},{119,812742886815821414u},{119,943373104014623211u},{119,957907382454702754u},{119,972441660894782297u},{119,1030436143645569197u},{119,1132033461716594726u},{119,1523888455560617299u},{119,2264066923433189452u},{119,2655921917277212025u},{119,3047776911121234598u},{119,3439631904965257171u},{119,3933084216880305273u},{119,5311843834554424050u},{119,6095553822242469196u},{119,7866168433760610546u},{119,9244928051434729323u},
{120,119317040090687u},{120,150860640660682u},{120,177832666437815u},{120,238634080181374u},{120,328693307098497u},{120,387208933445625u},{120,477268160362748u},{120,567327387279871u},{120,657386614196994u},{120,774417866891250u},{120,864477093808373u},{120,954536320725496u},{120,1044595547642619u},{120,1134654774559742u},{120,1224714001476865u},{120,1314773228393988u},{120,1404832455311111u},{120,2269309549119484u},{120,2449428002953730u},{120,2629546456787976u},{120,2809664910622222u},{120,4898856005907460u},{120,5259092913575952u},{120,6897987874275575u},{120,7618461689612559u},{120,9797712011814920u},{120,10518185827151904u},{120,11238659642488888u},{120,11256488518680297u},{120,12337199241685773u},{120,15236923379225118u},{120,19595424023629840u},{120,22495148161169185u},{120,24674398483371546u},{120,27574122620910891u},{120,42090572184799025u},{120,44990296322338370u},{120,52248521104282437u},{120,55148245241821782u},{120,87080868507137395u},{120,89980592644676740u},{120,95762212043564021u},{120,98697593933486184u},{120,104497042208564874u},{120,142229113748959177u},{120,179961185289353480u},{120,246726155957524051u},{120,284458227497918354u},{120,493452311915048102u},{120,531184383455442405u},{120,568916454995836708u},{120,911440480749307598u},{120,949172552289701901u},{120,986904623830096204u},{120,1024636695370490507u},{120,1062368766910884810u},{120,1100100838451279113u},{120,1137832909991673416u},{120,2124737533821769620u},{120,2162469605362163923u},{120,4249475067643539240u},{120,5703698828398446623u},{120,7120190517612959703u},{120,8498950135287078480u},{120,9877709752961197257u},
{121,102676667145121u},{121,117031252694256u},{121,127911547601117u},{121,142266133150252u},{121,154883573378250u},{121,244942800295373u},{121,309767146756500u},{121,489885600590746u},{121,619534293513000u},{121,760063281342115u},{121,979771201181492u},{121,1058950133191754u},{121,1120300189010607u},{121,1379597574855115u},{121,1959542402362984u},{121,2759195149710230u},{121,3339139977218099u},{121,3919084804725968u},{121,4499029632233837u},{121,6678279954436198u},{121,7258224781944067u},{121,7838169609451936u},{121,8998059264467674u},{121,9841233191442364u},{121,9876890943825182u},{121,13356559908872396u},{121,13936504736380265u},{121,14516449563888134u},{121,17996118528935348u},{121,18576063356443217u},{121,33672457747839220u},{121,34832347402854958u},{121,35992237057870696u},{121,37152126712886434u},{121,69664694805709916u},{121,71984474115741392u},{121,77783922390820082u},{121,106236876691088481u},{121,139329389611419832u},{121,143968948231482784u},{121,212473753382176962u},{121,250205824922571265u},{121,424947506764353924u},{121,462679578304748227u},{121,604328747226199535u},{121,849895013528707848u},{121,925359156609496454u},{121,1000823299690285060u},{121,1019997136750427555u},{121,1095461279831216161u},{121,1170925422912004767u},{121,1454223760754907383u},{121,1699790027057415696u},{121,3154013787812323079u},{121,3399580054114831392u},{121,6553593841927154471u},{121,6799160108229662784u},{121,9669259955619192560u},{121,9802245609880408651u},{121,9935231264141624742u},
{122,101542895356431u},{122,106681356043638u},{122,113026563795739u},{122,123906858702600u},{122,152012656268423u},{122,180118453834246u},{122,208224251400069u},{122,247813717405200u},{122,275919514971023u},{122,304025312536846u},{122,332131110102669u},{122,360236907668492u},{122,495627434810400u},{122,551839029942046u},{122,608050625073692u},{122,664262220205338u},{122,937768241046573u},{122,955597117237982u},{122,973425993429391u},{122,991254869620800u},{122,1103678059884092u},{122,1216101250147384u},{122,1683622887391961u},{122,1796046077655253u},{122,2207356119768184u},{122,2787300947276053u},{122,3367245774783922u},{122,4414712239536368u},{122,5574601894552106u},{122,6734491549567844u},{122,8829424479072736u},{122,9634215687107189u},{122,11149203789104212u},{122,13468983099135688u},{122,18463640166179925u},{122,23103198786242877u},{122,26937966198271376u},{122,33092512920331351u},{122,50041164984514253u},{122,53875932396542752u},{122,62350258428634203u},{122,100082329969028506u},{122,103917097381057005u},{122,107751864793085504u},{122,120865749445239907u},{122,124700516857268406u},{122,200164659938057012u},{122,203999427350085511u},{122,241731498890479814u},{122,321030409383296919u},{122,400329319876114024u},{122,407998854700171022u},{122,483462997780959628u},{122,570431443097833731u},{122,729029264083467941u},{122,887627085069102151u},{122,956652898485615133u},{122,966925995561919256u},{122,997604134858147248u},{122,1212492261864427569u},{122,1458058528166935882u},{122,2424984523728855138u},{122,2916117056333871764u},{122,3478878964607648497u},{122,4287207139183933543u},{122,6394996020941520261u},{122,6957757929215296994u},{122,7520519837489073727u},{122,8011652370094090353u},{122,8574414278367867086u},{122,9137176186641643819u},
{123,155337082093726u},{123,170145176358337u},{123,198250973924160u},{123,269270663320417u},{123,310674164187452u},{123,396501947848320u},{123,793003895696640u},{123,864023585092897u},{123,935043274489154u},{123,2390798999427733u},{123,2532838378220247u},{123,3692728033235985u},{123,4781597998855466u},{123,6296586100852489u},{123,7385456066471970u},{123,8474326032091451u},{123,9563195997710932u},{123,10131353512880988u},{123,10652065963330413u},{123,11220223478500469u},{123,11740935928949894u},{123,14770912132943940u},{123,16948652064182902u},{123,20783419476211401u},{123,25707056853859381u},{123,37732071540394303u},{123,41566838952422802u},{123,51414113707718762u},{123,67273895806282183u},{123,83133677904845604u},{123,95679405041829951u},{123,96720829942728801u},{123,111018474689943947u},{123,142738038887070789u},{123,277285830499635155u},{123,340724958893888839u},{123,499322779879523049u},{123,681449917787777678u},{123,800137927301778623u},{123,943396678639298837u},{123,998645559759046098u},{123,1053894440878793359u},{123,1307650954455808095u},{123,1362899835575555356u},{123,2052540000637839457u},{123,2670550790031363451u},{123,4160328882395426175u},{123,5341101580062726902u},{123,8265408883671105089u},{123,8320657764790852350u},
{124,112423190263292u},{124,133758678619107u},{124,158600779139328u},{124,229620468535585u},{124,262743269229213u},{124,317201558278656u},{124,421344048368541u},{124,563383427161055u},{124,634403116557312u},{124,738545606647197u},{124,842688096737082u},{124,1022624364232225u},{124,1050973076916852u},{124,1126766854322110u},{124,1477091213294394u},{124,2954182426588788u},{124,3058324916678673u},{124,5908364853177576u},{124,6012507343267461u},{124,9629737414467567u},{124,9733879904557452u},{124,9838022394647337u},{124,11816729706355152u},{124,11920872196445037u},{124,23841744392890074u},{124,31615421707036957u},{124,55457166099927031u},{124,78986483022547450u},{124,95366977571560296u},{124,103140654885707179u},{124,110914332199854062u},{124,118688009514000945u},{124,150615858691307557u},{124,221828664399708124u},{124,261530190891161619u},{124,309005394696761997u},{124,523060381782323238u},{124,618010789393523994u},{124,832065776479085235u},{124,1046120763564646476u},{124,1101369644684393737u},{124,1156618525804140998u},{124,1664131552958170470u},{124,2147490408249040213u},{124,2844904250625471197u},{124,3328263105916340940u},{124,3811621961207210683u},{124,5206449645960072651u},{124,5689808501250942394u},{124,6173167356541812137u},{124,6656526211832681880u},{124,9791280524816069825u},{124,9805437017630600594u},{124,9888172630296383904u},{124,9970908242962167214u},
{125,108916578098886u},{125,112676685432211u},{125,116436792765536u},{125,121210880774537u},{125,142039378792514u},{125,162867876810491u},{125,367392749656936u},{125,388221247674913u},{125,409049745692890u},{125,859756487421734u},{125,880584985439711u},{125,901413483457688u},{125,969687046196296u},{125,990515544214273u},{125,1844483962951330u},{125,1865312460969307u},{125,1886140958987284u},{125,7648706326039021u},{125,7732020318110929u},{125,7815334310182837u},{125,7981962294326653u},{125,8065276286398561u},{125,8148590278470469u},{125,15797296604509490u},{125,15963924588653306u},{125,23737601902800189u},{125,23904229886944005u},{125,31594593209018980u},{125,39534898507309679u},{125,47475203805600378u},{125,71462747684616291u},{125,94950407611200756u},{125,103223968877779087u},{125,110831018207782154u},{125,119104579474360485u},{125,134651934102654251u},{125,166413155295817047u},{125,198174376488979843u},{125,229935597682142639u},{125,269303868205308502u},{125,332826310591634094u},{125,396348752977959686u},{125,451597634097706947u},{125,546881297677195335u},{125,665652621183268188u},{125,784423944689341041u},{125,986206298888872367u},{125,994479860155450698u},{125,1331305242366536376u},{125,1577121450645260413u},{125,1814664097657406119u},{125,2662610484733072752u},{125,2908426693011796789u},{125,3629328195314812238u},{125,3875144403593536275u},{125,5325220969466145504u},{125,5571037177744869541u},{125,7504472598908348513u},{125,7750288807187072550u},
{126,101134404223225u},{126,121962902241202u},{126,142791400259179u},{126,285582800518358u},{126,306411298536335u},{126,327239796554312u},{126,675308091126601u},{126,696136589144578u},{126,716965087162555u},{126,1350616182253202u},{126,1392273178289156u},{126,1433930174325110u},{126,1579729660450949u},{126,1663043652522857u},{126,3159459320901898u},{126,4780845977388801u},{126,6318918641803796u},{126,7773677314146883u},{126,8106933282434515u},{126,9561691954777602u},{126,10683194658833057u},{126,11016450627120689u},{126,11349706595408321u},{126,12637837283607592u},{126,17335369268924485u},{126,19123383909555204u},{126,23820915894872097u},{126,25275674567215184u},{126,47641831789744194u},{126,68219974371642485u},{126,77615038342276271u},{126,98859692860749826u},{126,99558153226615135u},{126,109376259535439067u},{126,155230076684552542u},{126,182293765892398445u},{126,218752519070878134u},{126,264606336219991609u},{126,364587531784796890u},{126,437505038141756268u},{126,483358855290869743u},{126,775028880718707255u},{126,783302441985285586u},{126,812609136601242399u},{126,875010076283512536u},{126,966717710581739486u},{126,1212533918860463523u},{126,1304241553158690473u},{126,1550057761437414510u},{126,2179251629442203009u},{126,2854299314596104983u},{126,3100115522874829020u},{126,4358503258884406018u},{126,5954414837470934003u},{126,6200231045749658040u},{126,6629462522624835977u},{126,7121094939182284051u},{126,8717006517768812036u},
{127,101736021396557u},{127,122564519414534u},{127,143393017432511u},{127,245129038829068u},{127,286786034865022u},{127,349271528918953u},{127,573572069730044u},{127,698543057837906u},{127,922843598648997u},{127,1089471582792813u},{127,1147144139460088u},{127,1621386656486903u},{127,1845687197297994u},{127,3242773312973806u},{127,3467073853784897u},{127,6709847166758703u},{127,6934147707569794u},{127,9805326937107914u},{127,9830885680539950u},{127,9856444423971986u},{127,9882003167404022u},{127,13643994874328497u},{127,13868295415139588u},{127,27287989748656994u},{127,36458753178479689u},{127,45405216067491293u},{127,54575979497313988u},{127,63746742927136683u},{127,81639668705159891u},{127,90810432134982586u},{127,99981195564805281u},{127,109151958994627976u},{127,118322722424450671u},{127,127493485854273366u},{127,273328498568192122u},{127,291670025427837512u},{127,310011552287482902u},{127,337523842576950987u},{127,620023104574965804u},{127,675047685153901974u},{127,920863893432626011u},{127,994230000871207571u},{127,1067596108309789131u},{127,1093313994272768488u},{127,1166680101711350048u},{127,1240046209149931608u},{127,1522545471147946425u},{127,1841727786865252022u},{127,2160910102582557619u},{127,4641002520882420835u},{127,4960184836599726432u},{127,9994718033324775233u},{127,9996120682206583084u},{127,9997523331088390935u},{127,9998925979970198786u},
{128,101901965440952u},{128,110864064036684u},{128,113436476774407u},{128,129452037405728u},{128,390928524954907u},{128,413997547621817u},{128,437066570288727u},{128,603694554432543u},{128,781857049909814u},{128,827995095243634u},{128,983088568053995u},{128,995867939770013u},{128,997278184097770u},{128,1207389108865086u},{128,1431689649676177u},{128,1655990190487268u},{128,2414778217730172u},{128,2639078758541263u},{128,2863379299352354u},{128,3087679840163445u},{128,5278157517082526u},{128,5726758598704708u},{128,7112310203047065u},{128,7560911284669247u},{128,7824960184956149u},{128,8682413988724702u},{128,8722162348200513u},{128,9619364511444877u},{128,9659112870920688u},{128,34848901033326241u},{128,38517206405255319u},{128,42185511777184397u},{128,106380855785943262u},{128,113717466529801418u},{128,121054077273659574u},{128,275162651254156661u},{128,304509094229589285u},{128,333855537205021909u},{128,363201980180454533u},{128,609018188459178570u},{128,667711074410043818u},{128,928200504176484167u},{128,986893390127349415u},{128,999051008667935168u},{128,999181710046517067u},{128,999312411425098966u},{128,1218036376918357140u},{128,1537218692635662737u},{128,1856401008352968334u},{128,2234276210021139179u},{128,2436072753836714280u},{128,3074437385271325474u},{128,3712802016705936668u},{128,4670348963857853459u},{128,5947078226727075847u},{128,7223807489596298235u},{128,7425604033411873336u},{128,8937104840084556716u},{128,9138901383900131817u},{128,9340697927715706918u},{128,9542494471531282019u},{128,9744291015346857120u},
{129,182776300010653u},{129,192003909077417u},{129,196617713610799u},{129,215072931744327u},{129,384007818154834u},{129,393235427221598u},{129,430145863488654u},{129,617535968032689u},{129,786470854443196u},{129,860291726977308u},{129,973860958987231u},{129,1047681831521343u},{129,1235071936065378u},{129,1422462040609413u},{129,2470143872130756u},{129,2657533976674791u},{129,2844924081218826u},{129,3032314185762861u},{129,3480915267385043u},{129,3855695476473113u},{129,5315067953349582u},{129,5689848162437652u},{129,6961830534770086u},{129,7711390952946226u},{129,9170763429822695u},{129,10630135906699164u},{129,11379696324875304u},{129,13213849010839843u},{129,18341526859645390u},{129,20550459754697999u},{129,36683053719290780u},{129,38891986614343389u},{129,60901818845917857u},{129,77783973228686778u},{129,90248261821350481u},{129,99901594238534213u},{129,99987028322201960u},{129,104921483309066793u},{129,121803637691835714u},{129,138685792074604635u},{129,197378678025469883u},{129,226725121000902507u},{129,243607275383671428u},{129,394757356050939766u},{129,487214550767342856u},{129,655246785817380115u},{129,789514712101879532u},{129,840161175250186295u},{129,906900484003610028u},{129,974429101534685712u},{129,1108697027819185129u},{129,1444761497919259647u},{129,1948858203069371424u},{129,2419190599453945359u},{129,2889522995838519294u},{129,3695919862323167747u},{129,4838381198907890718u},{129,5779045991677038588u},{129,7391839724646335494u},{129,7593636268461910595u},{129,9474965854000206335u},{129,9676762397815781436u},
{130,130889280859949u},{130,131456865501700u},{130,224300540811091u},{130,261778561719898u},{130,299256582628705u},{130,1047114246879592u},{130,1122070288697206u},{130,1197026330514820u},{130,1684240602329311u},{130,1834152685964539u},{130,1984064769599767u},{130,3668305371929078u},{130,5727326183346459u},{130,7336610743858156u},{130,9990669474469477u},{130,9995419366242377u},{130,9998702832220196u},{130,13063936927204615u},{130,14673221487716312u},{130,27737158414920927u},{130,29346442975432624u},{130,55474316829841854u},{130,75575040333634169u},{130,90847910155891393u},{130,97285048397938181u},{130,110948633659683708u},{130,131049357163476023u},{130,151150080667268338u},{130,168032235050037259u},{130,262098714326952046u},{130,336064470100074518u},{130,430130949376989305u},{130,524197428653904092u},{130,658465354938403509u},{130,672128940200149036u},{130,846598313492233083u},{130,860261898753978610u},{130,1034731272046062657u},{130,1048394857307808184u},{130,1222864230599892231u},{130,1236527815861637758u},{130,1250191401123383285u},{130,1518727253692382119u},{130,1894993170800041267u},{130,2271259087907700415u},{130,3037454507384764238u},{130,3789986341600082534u},{130,8910566978338717613u},
{131,105165492401360u},{131,119702633051482u},{131,164449224285350u},{131,187390104544035u},{131,239405266102964u},{131,276883287011771u},{131,374780209088070u},{131,426795370646999u},{131,478810532205928u},{131,553766574023542u},{131,651663496099841u},{131,755693819217699u},{131,853590741293998u},{131,998990427744971u},{131,999031886008182u},{131,999465416922261u},{131,999506875185472u},{131,999940406099551u},{131,999981864362762u},{131,1107533148047084u},{131,1707181482587996u},{131,1909108727782153u},{131,2208932895052609u},{131,2612787385440923u},{131,3016641875829237u},{131,3818217455564306u},{131,4423999191146777u},{131,5225574770881846u},{131,6834859331393543u},{131,7636434911128612u},{131,8034156000475367u},{131,8046422802558485u},{131,8835731580210436u},{131,8847998382293554u},{131,9649573962028623u},{131,10451149541763692u},{131,13669718662787086u},{131,14471294242522155u},{131,16882154382768921u},{131,20902299083527384u},{131,24922443784285847u},{131,36181302306826167u},{131,49844887568571694u},{131,57885176970088620u},{131,69945611072364009u},{131,86026189875397861u},{131,102106768678431713u},{131,115770353940177240u},{131,118187347481465565u},{131,139891222144728018u},{131,172052379750795722u},{131,204213537356863426u},{131,250038280224676657u},{131,298280016633778213u},{131,344104759501591444u},{131,454251817581540083u},{131,500076560449353314u},{131,642384776135369657u},{131,688209519003182888u},{131,908503635163080166u},{131,954328378030893397u},{131,1000153120898706628u},{131,1008982719077875505u},{131,1017812317257044382u},{131,1284769552270739314u},{131,1550888411298449823u},{131,1817007270326160332u},{131,2395069731249394581u},{131,2927307449304815599u},{131,3634014540652320664u},{131,4964608835790873209u},{131,6029084271901715245u},{131,7093559708012557281u},{131,8158035144123399317u},{131,8690272862178820335u},{131,9039211608762988429u},{131,9580278924997578324u},{131,9929217671581746418u},
{132,131559379428280u},{132,149912083635228u},{132,220279949401105u},{132,299824167270456u},{132,342662976725911u},{132,440559898802210u},{132,764870171321173u},{132,881119797604420u},{132,887253198645979u},{132,1046341634384681u},{132,1205430070123383u},{132,1609284560511697u},{132,2410860140246766u},{132,2894258848504431u},{132,5305118988751197u},{132,5788517697008862u},{132,6271916405266527u},{132,10126839269244729u},{132,10610237977502394u},{132,11093636685760059u},{132,12060434102275389u},{132,12543832810533054u},{132,22670672079777783u},{132,23154070788035448u},{132,23637469496293113u},{132,24120868204550778u},{132,30710961481294709u},{132,31677758897810039u},{132,46308141576070896u},{132,47274938992586226u},{132,63355517795620078u},{132,77985900473880935u},{132,94549877985172452u},{132,100350662484264432u},{132,101445881331310669u},{132,102284257317295092u},{132,110147058079948639u},{132,155971800947761870u},{132,172535778459053387u},{132,328507579406815257u},{132,345071556918106774u},{132,548801695566712535u},{132,657015158813630514u},{132,798356577083131527u},{132,923134017841341023u},{132,989389927886507091u},{132,1205816854380343049u},{132,1596713154166263054u},{132,1738054572435764067u},{132,2411633708760686098u},{132,3085212845085608129u},{132,3476109144871528134u},{132,4823267417521372196u},{132,6170425690171216258u},{132,6278639153418134237u},{132,6952218289743056268u},{132,8191163099145982351u},{132,8407590025639818309u},{132,9646534835042744392u},
{133,105247503542624u},{133,122383027324806u},{133,150520673847611u},{133,176223959520884u},{133,272903701172417u},{133,352447919041768u},{133,449127660693301u},{133,545807402344834u},{133,704895838083536u},{133,801575579735069u},{133,898255321386602u},{133,1091614804689668u},{133,1188294546341201u},{133,10021496767866647u},{133,10086434820638806u},{133,10151372873410965u},{133,10214856251169713u},{133,15210461128170055u},{133,15597180094776187u},{133,15983899061382319u},{133,31194360189552374u},{133,31967798122764638u},{133,47371618734237759u},{133,62388720379104748u},{133,78952697890396265u},{133,91649485735626462u},{133,94743237468475518u},{133,109760339113342507u},{133,124777440758209496u},{133,139794542403076485u},{133,157905395780792530u},{133,219520678226685014u},{133,297699938183869015u},{133,390896299785920005u},{133,439041356453370028u},{133,595399876367738030u},{133,673579136324922031u},{133,781792599571840010u},{133,878082712906740056u},{133,986296176153658035u},{133,1190799752735476060u},{133,1299013215982394039u},{133,1347158272649844062u},{133,1972592352307316070u},{133,2177095928889134095u},{133,4149688281196450165u},{133,8299376562392900330u},
{134,119695730606775u},{134,125323259911336u},{134,187731953998505u},{134,198987012607627u},{134,210242071216749u},{134,278784166345477u},{134,301294283563721u},{134,397974025215254u},{134,494653766866787u},{134,602588567127442u},{134,699268308778975u},{134,795948050430508u},{134,1002586079290688u},{134,1021049222612948u},{134,1063477158166863u},{134,2268654292421747u},{134,2655373259027879u},{134,3042092225634011u},{134,3428811192240143u},{134,3815530158846275u},{134,5310746518055758u},{134,6084184451268022u},{134,6857622384480286u},{134,8546198226992835u},{134,9074617169686988u},{134,9564655150723210u},{134,10093074093417363u},{134,12168368902536044u},{134,15790539578079253u},{134,16563977511291517u},{134,24336737805072088u},{134,27958908480615297u},{134,31581079156158506u},{134,52295646285687385u},{134,55917816961230594u},{134,59539987636773803u},{134,63162158312317012u},{134,70934918606097583u},{134,78179259957184001u},{134,85423601308270419u},{134,92667942659356837u},{134,104591292571374770u},{134,111835633922461188u},{134,119079975273547606u},{134,126324316624634024u},{134,156358519914368002u},{134,197259235230731607u},{134,238159950547095212u},{134,271816324512372399u},{134,312717039828736004u},{134,353617755145099609u},{134,435419185777826819u},{134,476319901094190424u},{134,517220616410554029u},{134,625434079657472008u},{134,666334794973835613u},{134,707235510290199218u},{134,870838371555653638u},{134,911739086872017243u},{134,952639802188380848u},{134,1010594532997072192u},{134,1017387217328780319u},{134,1034441232821108058u},{134,1496272451213125646u},{134,1578073881845852856u},{134,1659875312478580066u},{134,1741676743111307276u},{134,1823478173744034486u},{134,3156147763691705712u},{134,3319750624957160132u},{134,3483353486222614552u},{134,5020526652752103803u},{134,6639501249914320264u},{134,8258475847076536725u},{134,8749284430872899985u},{134,9386641860442389926u},
{135,100549542931751u},{135,101295527482098u},{135,129521760312786u},{135,139853661755795u},{135,150185563198804u},{135,279707323511590u},{135,290039224954599u},{135,559414647023180u},{135,580078449909198u},{135,763106031769255u},{135,915137909300285u},{135,956465515072321u},{135,997793120844357u},{135,1322520678792435u},{135,1526212063538510u},{135,1709239645398567u},{135,1912931030144642u},{135,2848732742330945u},{135,3052424127077020u},{135,3418479290797134u},{135,4761663772475587u},{135,5697465484661890u},{135,6836958581594268u},{135,7772760293780571u},{135,8587525832764871u},{135,9523327544951174u},{135,10459129257137477u},{135,11394930969323780u},{135,19982456802088651u},{135,20918258514274954u},{135,33656373965277187u},{135,41836517028549908u},{135,50016660091822629u},{135,100033320183645258u},{135,100727049549427555u},{135,103776527032390470u},{135,104470256398172767u},{135,931842579847307897u},{135,997283724353489665u},{135,1520812880402943809u},{135,1586254024909125577u},{135,1651695169415307345u},{135,1749856886174579997u},{135,3172508049818251154u},{135,3303390338830614690u},{135,3499713772349159994u},{135,4922364935992831151u},{135,5184129514017558223u},{135,6606780677661229380u},{135,6999427544698319988u},{135,8160314130317264073u},{135,8683843286366718217u},{135,9844729871985662302u},
{136,111882929404636u},{136,131957403467833u},{136,132546732290654u},{136,152621206353851u},{136,183027581860057u},{136,223765858809272u},{136,264504135758487u},{136,305242412707702u},{136,447531717618544u},{136,488269994567759u},{136,529008271516974u},{136,610484825415404u},{136,651223102364619u},{136,895063435237088u},{136,976539989135518u},{136,1058016543033948u},{136,1139493096932378u},{136,1220969650830808u},{136,1302446204729238u},{136,2278986193864756u},{136,2441939301661616u},{136,3622170675543209u},{136,4557972387729512u},{136,5982633423306395u},{136,10293818834049333u},{136,10335735768644190u},{136,10377652703239047u},{136,10419569637833904u},{136,10461486572428761u},{136,15098578198765419u},{136,17621994054325465u},{136,22017013334258117u},{136,30197156397530838u},{136,38377299460803559u},{136,57261001442909047u},{136,73621287569454489u},{136,84934741984879839u},{136,88068053337032468u},{136,91201364689185097u},{136,114522002885818094u},{136,117655314237970723u},{136,147242575138908978u},{136,150375886491061607u},{136,199456744870697933u},{136,264897889376879701u},{136,330339033883061469u},{136,428500750642334121u},{136,529795778753759402u},{136,660678067766122938u},{136,827414240383729987u},{136,857001501284668242u},{136,1059591557507518804u},{136,1089178818408457059u},{136,1321356135532245876u},{136,2410534953940702935u},{136,2642712271064491752u},{136,5053247225005194687u},{136,5285424542128983504u},
{137,105330191245138u},{137,113477846634981u},{137,121625502024824u},{137,138510141627331u},{137,154805452407017u},{137,171100763186703u},{137,903211090626931u},{137,968392333745675u},{137,1010309268340532u},{137,1033573576864419u},{137,1066164198423791u},{137,1196526684661279u},{137,1326889170898767u},{137,2067147153728838u},{137,2132328396847582u},{137,2393053369322558u},{137,3263673838390117u},{137,3524398810865093u},{137,4786106738645116u},{137,5656727207712675u},{137,7048797621730186u},{137,7919418090797745u},{137,8529313587390328u},{137,9223042953172625u},{137,9572213477290232u},{137,9921384001407839u},{137,12705524829442861u},{137,14097595243460372u},{137,22277738306733093u},{137,25411049658885722u},{137,28195190486920744u},{137,31328501839073373u},{137,38638024433278535u},{137,44555476613466186u},{137,71358596686369419u},{137,77276048866557070u},{137,83193501046744721u},{137,136799741192551187u},{137,470272086427765285u},{137,482106990788140587u},{137,493941895148515889u},{137,708366855731741753u},{137,732036664452492357u},{137,964213981576281174u},{137,1011553599017782382u},{137,1035223407738532986u},{137,1184556394339694689u},{137,1696250646028773531u},{137,1928427963152562348u},{137,3624678609181335879u},{137,3856855926305124696u},{137,4089033243428913513u},{137,7945889169734038209u},{137,8178066486857827026u},{137,8410243803981615843u},{137,8969277673112195893u},{137,9433632307359773527u},{137,9897986941607351161u},
{138,101010337208123u},{138,102875599815220u},{138,104740862422317u},{138,128497223630391u},{138,162953107796860u},{138,193678466749135u},{138,256994447260782u},{138,291450331427251u},{138,387356933498270u},{138,548444778688033u},{138,582900662854502u},{138,774713866996540u},{138,809169751163009u},{138,1131345441542535u},{138,1583883618159549u},{138,1844608590634525u},{138,2262690883085070u},{138,2749684943868553u},{138,3167767236319098u},{138,4525381766170140u},{138,5012375826953623u},{138,6335534472638196u},{138,7727604886655707u},{138,9050763532340280u},{138,10024751653907246u},{138,11347910299591819u},{138,12321898421158785u},{138,12671068945276392u},{138,15455209773311414u},{138,21372661953499065u},{138,22695820599183638u},{138,30910419546622828u},{138,36827871726810479u},{138,61820839093245656u},{138,82219512925177755u},{138,94054417285553057u},{138,100596687063190067u},{138,102618186757109854u},{138,105889321645928359u},{138,132205447658048109u},{138,155875256378798713u},{138,188108834571106114u},{138,255847125844539421u},{138,376217669142212228u},{138,520258021160635639u},{138,632064794986751649u},{138,1264129589973503298u},{138,1496306907097292115u},{138,2072468315170985759u},{138,2536822949418563393u},{138,2992613814194584230u},{138,3689145765565950681u},{138,4144936630341971518u},{138,5529436763613147623u},{138,7378291531131901362u},{138,7834082395907922199u},{138,8289873260683943036u},
{139,105782199075668u},{139,120486889232839u},{139,130362486237488u},{139,154942773399308u},{139,226269088308507u},{139,309885546798616u},{139,368921718126905u},{139,452538176617014u},{139,536154635107123u},{139,619771093597232u},{139,737843436253810u},{139,905076353234028u},{139,1072309270214246u},{139,1224837497037293u},{139,1239542187194464u},{139,1475686872507620u},{139,1810152706468056u},{139,2464379684231757u},{139,3620305412936112u},{139,4274532390699813u},{139,4928759368463514u},{139,7894837803635925u},{139,8549064781399626u},{139,10511745714690729u},{139,10541155095005071u},{139,16443902585035551u},{139,17098129562799252u},{139,21707127787459501u},{139,32887805170071102u},{139,65775610340142204u},{139,76956287722753805u},{139,86828511149838004u},{139,92062326971947612u},{139,95392280621394801u},{139,100626096443504409u},{139,122987451208727611u},{139,131551220680284408u},{139,145348805973950813u},{139,153912575445507610u},{139,209815962358565615u},{139,254538671889012019u},{139,299261381419458423u},{139,509077343778024038u},{139,598522762838916846u},{139,741254660901812855u},{139,920145499023598471u},{139,1018154687556048076u},{139,1197045525677833692u},{139,1295054714210283297u},{139,1384500133271176105u},{139,2394091051355667384u},{139,3224791131318373047u},{139,4332391237935313931u},{139,5439991344552254815u},{139,5993791397860725257u},{139,6449582262636746094u},{139,8664782475870627862u},{139,9120573340646648699u},
{140,113112803084293u},{140,118072342656578u},{140,132777032813749u},{140,147568687250762u},{140,186897146709674u},{140,211520916011415u},{140,250849375470327u},{140,295137374501524u},{140,359089603262177u},{140,423041832022830u},{140,590274749003048u},{140,718179206524354u},{140,860788354202831u},{140,988692811724137u},{140,1003397501881308u},{140,1180549498006096u},{140,1578967560727185u},{140,1834776475769797u},{140,1977385623448274u},{140,2361098996012192u},{140,2503708143690669u},{140,3157935121454370u},{140,3812162099218071u},{140,4864807139702861u},{140,6315870242908740u},{140,7624324198436142u},{140,7766933346114619u},{140,9444395984048768u},{140,9587005131727245u},{140,9729614279405722u},{140,9872223427084199u},{140,12631740485817480u},{140,15391257544550761u},{140,28022998030368241u},{140,30782515089101522u},{140,33542032147834803u},{140,36444158354246561u},{140,41963192471713123u},{140,47482226589179685u},{140,61565030178203044u},{140,67084064295669606u},{140,72888316708493122u},{140,75362615471869449u},{140,83926384943426246u},{140,94964453178359370u},{140,103528222649916167u},{140,123130060356406088u},{140,134168128591339212u},{140,148250932180362571u},{140,167852769886852492u},{140,187454607593342413u},{140,276900026654235221u},{140,296501864360725142u},{140,316103702067215063u},{140,553800053308470442u},{140,593003728721450284u},{140,1009590918084491279u},{140,1048794593497471121u},{140,1087998268910450963u},{140,1107600106616940884u},{140,1563390971392961721u},{140,1641798322218921405u},{140,2097589186994942242u},{140,2175996537820901926u},{140,2215200213233881768u},{140,2670991078009902605u},{140,3283596644437842810u},{140,3739387509213863647u},{140,4351993075641803852u},{140,5341982156019805210u},{140,5954587722447745415u},{140,8091380584855667499u},{140,8703986151283607704u},{140,8860800852935527072u},{140,9159777016059628541u},{140,9458753179183730010u},
{141,100478893035878u},{141,103280688219565u},{141,107248319877393u},{141,146576779336305u},{141,169216732809132u},{141,191856686281959u},{141,293153558672610u},{141,315793512145437u},{141,338433465618264u},{141,443697969666743u},{141,631587024290874u},{141,819476078915005u},{141,887395939333486u},{141,939445273120655u},{141,977955753224794u},{141,1030005087011963u},{141,1263174048581748u},{141,1496343010151533u},{141,1917401026345449u},{141,2526348097163496u},{141,3135295167981543u},{141,4443749123508945u},{141,5052696194326992u},{141,5661643265145039u},{141,8278551176199843u},{141,8887498247017890u},{141,9496445317835937u},{141,10105392388653984u},{141,10714339459472031u},{141,11323286530290078u},{141,18992890635671874u},{141,25120871823956483u},{141,26338765965592577u},{141,37985781271343748u},{141,45331656601264451u},{141,71061475496038981u},{141,90663313202528902u},{141,100483487295825932u},{141,105355063862370308u},{141,142122950992077962u},{141,186236713451706319u},{141,328359664443784281u},{141,534198215601980521u},{141,656719328887568562u},{141,779240442173156603u},{141,891941381365447614u},{141,945875317918373001u},{141,999809254471298388u},{141,1068396431203961042u},{141,1190917544489549083u},{141,1313438657775137124u},{141,1435959771060725165u},{141,1891750635836746002u},{141,2136792862407922084u},{141,2381835088979098166u},{141,2626877315550274248u},{141,4273585724815844168u},{141,4763670177958196332u},{141,6532899700509354293u},{141,7022984153651706457u},{141,7268026380222882539u},{141,8547171449631688336u},{141,9527340355916392664u},
{142,117261423469044u},{142,163895215783001u},{142,187889054624131u},{142,234522846938088u},{142,281156639252045u},{142,655580863132004u},{142,702214655445961u},{142,888749824701789u},{142,1075284993957617u},{142,1261820163213445u},{142,1311161726264008u},{142,1777499649403578u},{142,2386446720221625u},{142,3554999298807156u},{142,4537016708136859u},{142,6127981188284609u},{142,7109998597614312u},{142,10017540345499282u},{142,10056050825603421u},{142,10527804290216203u},{142,10566314770320342u},{142,11273944967239515u},{142,12255962376569218u},{142,22547889934479030u},{142,81353403053948793u},{142,83317437872608199u},{142,90191559737916120u},{142,94119629375234932u},{142,98047699012553744u},{142,124485148104247447u},{142,162706806107897586u},{142,287191954212145033u},{142,367563339856764123u},{142,536162250420639927u},{142,574383908424290066u},{142,735126679713528246u},{142,1072324500841279854u},{142,1110546158844929993u},{142,1148767816848580132u},{142,1186989474852230271u},
{143,101511234796063u},{143,112462655700818u},{143,197486590160583u},{143,224925311401636u},{143,252364032642689u},{143,422411901562219u},{143,449850622803272u},{143,477289344044325u},{143,504728065285378u},{143,532166786526431u},{143,608947070818047u},{143,663824513300153u},{143,954578688088650u},{143,1009456130570756u},{143,1064333573052862u},{143,1080700535430829u},{143,1327649026600306u},{143,1618403201388803u},{143,1909157376177300u},{143,2254788993447903u},{143,2836297343024897u},{143,3236806402777606u},{143,3818314752354600u},{143,4218823812107309u},{143,4509577986895806u},{143,5491595396225509u},{143,6473612805555212u},{143,8838156683967327u},{143,9019155973791612u},{143,9200155263615897u},{143,10983190792451018u},{143,13128224900934709u},{143,15092259719594115u},{143,17056294538253521u},{143,18038311947583224u},{143,24111415693385727u},{143,28039485330704539u},{143,30184519439188230u},{143,34112589076507042u},{143,36076623895166448u},{143,42149727640968951u},{143,48222831386771454u},{143,54295935132573957u},{143,68225178153014084u},{143,70370212261497775u},{143,72153247790332896u},{143,84299455281937902u},{143,96445662773542908u},{143,122521113285588041u},{143,154669667543435677u},{143,206820568567525943u},{143,245042226571176082u},{143,309339335086871354u},{143,323268578107311481u},{143,399711894114611759u},{143,413641137135051886u},{143,490084453142352164u},{143,504013696162792291u},{143,1008027392325584582u},{143,1070541465312444733u},{143,1098399951353324987u},
{144,104219005532669u},{144,105374316602310u},{144,154715879652873u},{144,190915737617730u},{144,345631617270603u},{144,381831475235460u},{144,418031333200317u},{144,691263234541206u},{144,727463092506063u},{144,763662950470920u},{144,799862808435777u},{144,907307071260707u},{144,943506929225564u},{144,979706787190421u},{144,1454926185012126u},{144,1491126042976983u},{144,1527325900941840u},{144,1563525758906697u},{144,2982252085953966u},{144,3018451943918823u},{144,3054651801883680u},{144,3964269495283669u},{144,4036669211213383u},{144,5964504171907932u},{144,6036903887837646u},{144,7928538990567338u},{144,8073338422426766u},{144,10001173383121315u},{144,10145972814980743u},{144,11929008343815864u},{144,12073807775675292u},{144,14001642736369841u},{144,14074042452299555u},{144,22074981158796607u},{144,24147615551350584u},{144,28148084904599110u},{144,44149962317593214u},{144,46222596710147191u},{144,56296169809198220u},{144,74370681614746301u},{144,92445193420294382u},{144,102229167655626555u},{144,106374436440734509u},{144,110519705225842463u},{144,3632976872915164281u},{144,3669125896526260443u},{144,3705274920137356605u},{144,7265953745830328562u},{144,7338251793052520886u},{144,7410549840274713210u},
{145,116532732129327u},{145,152732590094184u},{145,269265322223511u},{145,305465180188368u},{145,341665038153225u},{145,574730502411879u},{145,610930360376736u},{145,647130218341593u},{145,705974239941077u},{145,778373955870791u},{145,850773671800505u},{145,1149461004823758u},{145,1221860720753472u},{145,1294260436683186u},{145,1556747911741582u},{145,2000234676624263u},{145,2443721441506944u},{145,2814808490459911u},{145,4000469353248526u},{145,5186130216037141u},{145,5629616980919822u},{145,5928304313943075u},{145,7702251373473799u},{145,8000938706497052u},{145,10073573099051029u},{145,10372260432074282u},{145,10670947765097535u},{145,11259233961839644u},{145,15703190079970851u},{145,20445833531125311u},{145,22518467923679288u},{145,31705067492964955u},{145,40592979729227369u},{145,45036935847358576u},{145,45335623180381829u},{145,63111447652906657u},{145,81185959458454738u},{145,90073871694717152u},{145,90671246360763658u},{145,91268621026810164u},{145,741054984027471321u},{145,777204007638567483u},{145,813353031249663645u},{145,1030247172916240617u},{145,1066396196527336779u},{145,1102545220138432941u},{145,1482109968054942642u},{145,1554408015277134966u},{145,1626706062499327290u},{145,2964219936109885284u},{145,3108816030554269932u},{145,3253412124998654580u},{145,5928439872219770568u},{145,6217632061108539864u},{145,6506824249997309160u},
{146,100466157296433u},{146,105888435028525u},{146,131243737529198u},{146,136666015261290u},{146,170154734360101u},{146,200932314592866u},{146,242554450289815u},{146,273332030522580u},{146,309531888487437u},{146,340309468720202u},{146,371087048952967u},{146,401864629185732u},{146,546664061045160u},{146,680618937440404u},{146,742174097905934u},{146,917751109998127u},{146,979306270463657u},{146,1031772961624790u},{146,1040861430929187u},{146,1093328122090320u},{146,1102416591394717u},{146,1185660862788615u},{146,1361237874880808u},{146,1659925207904061u},{146,1835502219996254u},{146,2134189553019507u},{146,2371321725577230u},{146,3021163082784869u},{146,3319850415808122u},{146,3969691773015761u},{146,4268379106039014u},{146,4742643451154460u},{146,6341013498592991u},{146,7939383546031522u},{146,8238070879054775u},{146,9186599569285667u},{146,9485286902308920u},{146,9783974235332173u},{146,12682026997185982u},{146,16177454425086297u},{146,16476141758109550u},{146,21868626566471649u},{146,25364053994371964u},{146,28859481422272279u},{146,32354908850172594u},{146,39644451038996477u},{146,50728107988743928u},{146,57718962844544558u},{146,68802619794292009u},{146,79288902077992954u},{146,83381704171939775u},{146,97363413883541035u},{146,115437925689089116u},{146,133512437494637197u},{146,162670606249932729u},{146,198819629861028891u},{146,234968653472125053u},{146,325341212499865458u},{146,397639259722057782u},{146,469937306944250106u},{146,650682424999730916u},{146,795278519444115564u},{146,939874613888500212u},{146,1080377906238938039u},{146,1084470708332884860u},{146,1301364849999461832u},{146,1590557038888231128u},{146,1879749227777000424u},{146,2602729699998923664u},{146,3181114077776462256u},{146,3759498455554000848u},{146,5205459399997847328u},{146,6362228155552924512u},{146,7518996911108001696u},{146,9237778836064830188u},{146,9547435035423333589u},{146,9824348818030262422u},
{147,103177296162479u},{147,109332812209032u},{147,194043560231852u},{147,206354592324958u},{147,218665624418064u},{147,237132172557723u},{147,261754236743935u},{147,437331248836128u},{147,474264345115446u},{147,674463421393851u},{147,723707549766275u},{147,945306127442183u},{147,948528690230892u},{147,951751253019601u},{147,1148727766509297u},{147,1447415099532550u},{147,1647614175810955u},{147,1897057380461784u},{147,2596142866041847u},{147,3295228351621910u},{147,3794114760923568u},{147,4493200246503631u},{147,5192285732083694u},{147,7588229521847136u},{147,7689940341380693u},{147,8986400493007262u},{147,9088111312540819u},{147,10384571464167388u},{147,10486282283700945u},{147,11782742435327514u},{147,13180913406487640u},{147,16676340834387955u},{147,19472682776708207u},{147,22269024719028459u},{147,33352681668775910u},{147,38945365553416414u},{147,48630851532003739u},{147,54223535416644243u},{147,66705363337551820u},{147,77890731106832828u},{147,93168900970060657u},{147,104354268739341665u},{147,108447070833288486u},{147,112539872927235307u},{147,129317924581156819u},{147,159874264307612477u},{147,186337801940121314u},{147,216894141666576972u},{147,258635849162313638u},{147,376768405974189449u},{147,433788283333153944u},{147,810556689307343393u},{147,867576566666307888u},{147,936874850307112846u},{147,985709123478183699u},{147,1099748878196112689u},{147,1213788632914041679u},{147,1735153133332615776u},{147,2427577265828083358u},{147,2834902011528728465u},{147,3470306266665231552u},{147,3991670767083805649u},{147,5262479277356811823u},{147,6940612533330463104u},{147,7576016788466966191u},{147,7983341534167611298u},
{148,104701694697574u},{148,144741509953255u},{148,209403389395148u},{148,249443204650829u},{148,289483019906510u},{148,498886409301658u},{148,578966039813020u},{148,659045670324382u},{148,720716674602258u},{148,779165116091425u},{148,837613557580592u},{148,939324377114149u},{148,997772818603316u},{148,1157932079626040u},{148,1318091340648764u},{148,2097256456740189u},{148,2636182681297528u},{148,3335268166877591u},{148,4194512913480378u},{148,5272365362595056u},{148,6670536333755182u},{148,8389025826960756u},{148,8607633529472647u},{148,10107515320166330u},{148,10326123022678221u},{148,10544730725190112u},{148,10763338427702003u},{148,13341072667510364u},{148,17215267058945294u},{148,20870853747868333u},{148,26682145335020728u},{148,38086120806813627u},{148,53364290670041456u},{148,64768266141834355u},{148,76172241613627254u},{148,95324605868290013u},{148,98542977152189270u},{148,521364500418574097u},{148,566980402305745693u},{148,612596304192917289u},{148,658212206080088885u},{148,817867862685189471u},{148,860265393288461810u},{148,909099666459532663u},{148,951497197062805002u},{148,1042729000837148194u},{148,1133960804611491386u},{148,1225192608385834578u},{148,1316424412160177770u},{148,1678133255973651281u},{148,2267921609222982772u},{148,2857709962472314263u},{148,2948941766246657455u},{148,4128518472745320437u},{148,5308095179243983419u},{148,5897883532493314910u},{148,7484784984692622999u},{148,8257036945490640874u},{148,9843938397689948963u},
{149,107140732353726u},{149,111466970158165u},{149,115793207962604u},{149,120119445767043u},{149,124445683571482u},{149,155833023218285u},{149,231586415925208u},{149,311666046436570u},{149,463172831850416u},{149,547578700166217u},{149,623332092873140u},{149,926345663700832u},{149,1010751532016633u},{149,1095157400332434u},{149,1144953366212723u},{149,2021503064033266u},{149,2711936074004451u},{149,3486774952291437u},{149,9079458836931941u},{149,9735281944467614u},{149,9854297715218927u},{149,9973313485970240u},{149,12953653228366871u},{149,16053008741514815u},{149,18158917673863882u},{149,25907306456733742u},{149,51814612913467484u},{149,57019877358964495u},{149,75616010437852159u},{149,86026539328846181u},{149,96437068219840203u},{149,103629225826934968u},{149,114039754717928990u},{149,131642441216017777u},{149,172053078657692362u},{149,263284882432035554u},{149,372119372704467533u},{149,526569764864071108u},{149,589788353249331491u},{149,744238745408935066u},{149,898689137568538641u},{149,1053139529728142216u},{149,1151563491109580173u},{149,1179576706498662982u},{149,1334027098658266557u},{149,2359153412997325964u},{149,2513603805156929539u},{149,4718306825994651928u},{149,8664361691191285981u},{149,8973262475510493131u},{149,9436613651989303856u},{149,9675859105355452109u},{149,9815169767261569903u},{149,9915104558721600362u},
{150,102593759546141u},{150,106478527344288u},{150,112129175167603u},{150,124666418574628u},{150,151506785413846u},{150,209072286890429u},{150,249332837149256u},{150,303013570827692u},{150,360579072304275u},{150,414259805982711u},{150,498665674298512u},{150,609911909453531u},{150,721158144608550u},{150,989561813000730u},{150,997331348597024u},{150,1108577583752043u},{150,2988109277992925u},{150,3210601748302963u},{150,3433094218613001u},{150,4982771975186973u},{150,6421203496605926u},{150,7637142547714841u},{150,8527112428954993u},{150,9965543950373946u},{150,11403975471792899u},{150,12842406993211852u},{150,21369519422166845u},{150,22807950943585798u},{150,24246382465004751u},{150,25684813986423704u},{150,44177470365752643u},{150,45615901887171596u},{150,47054333408590549u},{150,48492764930009502u},{150,60341725342422477u},{150,63218588385260383u},{150,91231803774343192u},{150,94108666817181098u},{150,102739255945694816u},{150,116368156120588095u},{150,126437176770520766u},{150,157327255202441481u},{150,188217333634362196u},{150,949717257300324698u},{150,957592431389542165u},{150,965467605478759632u},{150,4193175492651999773u},{150,4440296120107365493u},{150,4687416747562731213u},{150,8386350985303999546u},{150,8880592240214730986u},{150,9374833495125462426u},
{151,144231628921710u},{151,164926968833455u},{151,288463257843420u},{151,309158597755165u},{151,576926515686840u},{151,597621855598585u},{151,750258770577094u},{151,770954110488839u},{151,1153853031373680u},{151,1174548371285425u},{151,1195243711197170u},{151,1215939051108915u},{151,2390487422394340u},{151,2856167702926161u},{151,3342543323369727u},{151,4273903884433369u},{151,5712335405852322u},{151,6685086646739454u},{151,7109376247447785u},{151,8547807768866738u},{151,9986239290285691u},{151,10410528890994022u},{151,11000381210996313u},{151,11424670811704644u},{151,13794462894187239u},{151,17095615537733476u},{151,19972478580571382u},{151,23273631224117619u},{151,97999671780729626u},{151,99696830183562950u},{151,191518486277908433u},{151,203874517650676719u},{151,216230549023445005u},{151,766073945111633732u},{151,815498070602706876u},{151,864922196093780020u},{151,4168463429906463201u},{151,4366159931870755777u},{151,4563856433835048353u},{151,4761552935799340929u},{151,8336926859812926402u},{151,8732319863741511554u},{151,9127712867670096706u},{151,9523105871598681858u},
{152,102968099190321u},{152,107107167172670u},{152,111246235155019u},{152,119524371119717u},{152,123663439102066u},{152,127802507084415u},{152,226631538292387u},{152,230770606274736u},{152,234909674257085u},{152,239048742239434u},{152,243187810221783u},{152,247326878204132u},{152,461541212549472u},{152,469819348514170u},{152,478097484478868u},{152,486375620443566u},{152,923082425098944u},{152,939638697028340u},{152,956194968957736u},{152,972751240887132u},{152,1005863784745924u},{152,1421875249489557u},{152,1912389937915472u},{152,2843750498979114u},{152,3334265187405029u},{152,8073849352370219u},{152,9677843593083132u},{152,9969683018356295u},{152,14742379727180277u},{152,16147698704740438u},{152,43246109804689001u},{152,55602141177457287u},{152,67958172550225573u},{152,83124841878114181u},{152,86492219609378002u},{152,89859597340641823u},{152,111204282354914574u},{152,135916345100451146u},{152,172984439218756004u},{152,222408564709829148u},{152,271832690200902292u},{152,794153385588434125u},{152,991849887552726701u},{152,1087330760803609168u},{152,1094065516266136810u},{152,1189546389517019277u},{152,1588306771176868250u},{152,1983699775105453402u},{152,6251011455994062891u},{152,8037014729135223717u},{152,9747741395413085002u},{152,9849957024126495111u},{152,9952172652839905220u},
{153,102242005667532u},{153,110520141632230u},{153,171371467476272u},{153,187927739405668u},{153,204484011335064u},{153,277752541126153u},{153,375855478811336u},{153,555505082252306u},{153,653608019937489u},{153,751710957622672u},{153,946682139101845u},{153,951620914666617u},{153,978559989069444u},{153,983498764634216u},{153,1503421915245344u},{153,1699627790615710u},{153,1993936603671259u},{153,2386348354411991u},{153,2778760105152723u},{153,3987873207342518u},{153,4772696708823982u},{153,5785603935643411u},{153,6570427437124875u},{153,7975746414685036u},{153,9545393417647964u},{153,9773477142985929u},{153,14938585602550643u},{153,15951492829370072u},{153,22914332017235679u},{153,26509793473837465u},{153,35270363390003965u},{153,45828664034471358u},{153,53019586947674930u},{153,56386964678938751u},{153,70540726780007930u},{153,88289950337678895u},{153,106039173895349860u},{153,109406551626613681u},{153,112773929357877502u},{153,158830677117686825u},{153,218813103253227362u},{153,236562326810898327u},{153,317661354235373650u},{153,437626206506454724u},{153,455375430064125689u},{153,497608632641995261u},{153,635322708470747300u},{153,773036784299499339u},{153,972557956066495635u},{153,986657840018759160u},{153,995217265283990522u},{153,1270645416941494600u},{153,1546073568598998678u},{153,1648289197312408787u},{153,1923717348969912865u},{153,2439075205169579091u},{153,2541290833882989200u},{153,3194362765911407465u},{153,4980366039052568291u},{153,6388725531822814930u},{153,6490941160536225039u},{153,9756300820678316364u},{153,9858516449391726473u},{153,9960732078105136582u},
{154,117476586443981u},{154,124346033993978u},{154,169962779061571u},{154,294308813055549u},{154,339925558123142u},{154,634234371178691u},{154,679851116246284u},{154,725467861313877u},{154,1222851997289789u},{154,1268468742357382u},{154,1314085487424975u},{154,1359702232492568u},{154,1405318977560161u},{154,1450935722627754u},{154,2582554229782357u},{154,2628170974849950u},{154,2673787719917543u},{154,5256341949699900u},{154,5301958694767493u},{154,5347575439835086u},{154,6962839187865607u},{154,7054072678000793u},{154,7145306168135979u},{154,10330216919129428u},{154,10421450409264614u},{154,10512683899399800u},{154,10603917389534986u},{154,10695150879670172u},{154,10786384369805358u},{154,14108145356001586u},{154,17657990067535779u},{154,21207834779069972u},{154,24666446000468979u},{154,28216290712003172u},{154,31766135423537365u},{154,35315980135071558u},{154,38865824846605751u},{154,42415669558139944u},{154,52882736712472151u},{154,56432581424006344u},{154,59982426135540537u},{154,67082115558608923u},{154,70631960270143116u},{154,74181804981677309u},{154,97206048159712940u},{154,97305543053586187u},{154,98665784001875916u},{154,119964852271081074u},{154,127064541694149460u},{154,134164231117217846u},{154,254129083388298920u},{154,370544090947845801u},{154,384743469793982573u},{154,508258166776597840u},{154,638872553182281493u},{154,769486939587965146u},{154,812085076126375462u},{154,857503189455238483u},{154,914300704839785571u},{154,1016516333553195680u},{154,1277745106364562986u},{154,1379960735077973095u},{154,1538973879175930292u},{154,2033032667106391360u},{154,2555490212729125972u},{154,3441392159876637999u},{154,5110980425458251944u},{154,5735653599794396665u},{154,6258111145417131277u},{154,6882784319753275998u},{154,7507457494089420719u},
{155,108600176208701u},{155,112227967182222u},{155,150589130302773u},{155,217200352417402u},{155,262817097484995u},{155,480017449902397u},{155,525634194969990u},{155,571250940037583u},{155,960034899804794u},{155,1005651644872387u},{155,1051268389939980u},{155,1096885135007573u},{155,1142501880075166u},{155,1188118625142759u},{155,1356074441519047u},{155,1447307931654233u},{155,2102536779879960u},{155,4205073559759920u},{155,6353227084707473u},{155,9720604815971294u},{155,9886477378962241u},{155,12706454169414946u},{155,16256298880949139u},{155,25412908338829892u},{155,32512597761898278u},{155,50825816677659784u},{155,86888259151092255u},{155,88016249867273337u},{155,101651633355319568u},{155,116415007559546881u},{155,144813765251820425u},{155,203303266710639136u},{155,275992147015594619u},{155,406606533421278272u},{155,551984294031189238u},{155,595146425927690095u},{155,813213066842556544u},{155,856375198739057401u},{155,1060806456165877619u},{155,1103968588062378476u},{155,1147130719958879333u},{155,1190292851855380190u},{155,1233454983751881047u},{155,1626426133685113088u},{155,2294261439917758666u},{155,3296014399266727033u},{155,4588522879835517332u},{155,6592028798533454066u},{155,7884537279102244365u},{155,9177045759671034664u},{155,9906091049259078411u},{155,9908446525585313822u},{155,9910802001911549233u},{155,9913157478237784644u},
{156,101807955538113u},{156,105126838993998u},{156,108445722449883u},{156,161318049464518u},{156,164636932920403u},{156,210253677987996u},{156,325954982384921u},{156,420507355975992u},{156,651909964769842u},{156,655228848225727u},{156,841014711951984u},{156,972074803557790u},{156,978712570469560u},{156,985350337381330u},{156,1496243560177711u},{156,1682029423903968u},{156,1867815287630225u},{156,2056920034812367u},{156,2428491762264881u},{156,3364058847807936u},{156,3735630575260450u},{156,4856983524529762u},{156,5420978882620303u},{156,6728117695615872u},{156,9713967049059524u},{156,10277962407150065u},{156,12892240033141203u},{156,17377651830218451u},{156,20555924814300130u},{156,25784480066282406u},{156,28962753050364085u},{156,34755303660436902u},{156,37933576644518581u},{156,57925506100728170u},{156,61103779084809849u},{156,69510607320873804u},{156,72688880304955483u},{156,75867153289037162u},{156,112672739217374661u},{156,115851012201456340u},{156,119029285185538019u},{156,122207558169619698u},{156,145377760609910966u},{156,188539892506411823u},{156,194896438474575181u},{156,238058570371076038u},{156,290755521219821932u},{156,333917653116322789u},{156,432955008845651219u},{156,476117140742152076u},{156,624673174336144721u},{156,667835306232645578u},{156,909072149587803295u},{156,952234281484304152u},{156,990373557293284300u},{156,992729033619519711u},{156,995084509945755122u},{156,1335670612465291156u},{156,1576907455820448873u},{156,1818144299175606590u},{156,2912578068285740029u},{156,3153814911640897746u},{156,3395051754996055463u},{156,6066392979926637775u},{156,6307629823281795492u},{156,6548866666636953209u},{156,8168936254353902939u},{156,8651409941064218373u},{156,9133883627774533807u},{156,9616357314484849241u},
{157,372235504143691u},{157,373563057526045u},{157,374890610908399u},{157,560012697943479u},{157,747126115052090u},{157,930256872013639u},{157,935567085543055u},{157,940877299072471u},{157,1120025395886958u},{157,1309793919760277u},{157,1494252230104180u},{157,2055592481430013u},{157,2804046149864457u},{157,2988504460208360u},{157,4111184962860026u},{157,5792550610072817u},{157,8037911615376149u},{157,8222369925720052u},{157,8406828236063955u},{157,11400642909801731u},{157,11585101220145634u},{157,11769559530489537u},{157,13266466867358425u},{157,16444739851440104u},{157,23170202440291268u},{157,26532933734716850u},{157,36436669307649693u},{157,46340404880582536u},{157,49518677864664215u},{157,69326149010529901u},{157,89133620156395587u},{157,92680809761165072u},{157,99009405498495693u},{157,99037355729328430u},{157,99065305960161167u},{157,99605262137762730u},{157,99633212368595467u},{157,102584545334097915u},{157,142199487625829287u},{157,181814429917560659u},{157,201621901063426345u},{157,284398975251658574u},{157,363628859835121318u},{157,403243802126852690u},{157,486020876315084919u},{157,727257719670242636u},{157,806487604253705380u},{157,882170299232398639u},{157,896359057651476579u},{157,972041752630169838u},{157,1213278595985327555u},{157,1454515439340485272u},{157,2019766200239032935u},{157,2426557191970655110u},{157,4446323392209688045u},{157,4853114383941310220u},{157,6224852749093563263u},{157,8892646784419376090u},{157,9299437776150998265u},{157,9706228767882620440u},
{158,110409475529871u},{158,113064582294579u},{158,146770116245710u},{158,149425223010418u},{158,152080329775126u},{158,187113417108611u},{158,298850446020836u},{158,335211086736675u},{158,374226834217222u},{158,597700892041672u},{158,670422173473350u},{158,748453668434444u},{158,932911978778347u},{158,1010943473739441u},{158,1088974968700535u},{158,1117370289122250u},{158,1195401784083344u},{158,1681365647212791u},{158,2206345257822785u},{158,2390803568166688u},{158,2653293373471685u},{158,3362731294425582u},{158,4072169215379479u},{158,5306586746943370u},{158,6016024667897267u},{158,9903735572932843u},{158,9960526213776273u},{158,10613173493886740u},{158,11322611414840637u},{158,19807471145865686u},{158,20516909066819583u},{158,21226346987773480u},{158,39614942291731372u},{158,40324380212685269u},{158,41033818133639166u},{158,41743256054593063u},{158,79229884583462744u},{158,80648760425370538u},{158,82067636267278332u},{158,83486512109186126u},{158,84905387951093920u},{158,161297520850741076u},{158,242655719197065511u},{158,322595041701482152u},{158,403953240047806587u},{158,485311438394131022u},{158,566669636740455457u},{158,645190083402964304u},{158,726548281749288739u},{158,807906480095613174u},{158,970622876788262044u},{158,1051981075134586479u},{158,1133339273480910914u},{158,1214697471827235349u},{158,1615812960191226348u},{158,1697171158537550783u},{158,1778529356883875218u},{158,1941245753576524088u},{158,2022603951922848523u},{158,2103962150269172958u},{158,3475700515421426001u},{158,3557058713767750436u},{158,3638416912114074871u},{158,3801133308806723741u},{158,3882491507153048176u},{158,3963849705499372611u},{158,7195475625881825307u},{158,7276833824228149742u},{158,7358192022574474177u},{158,7520908419267123047u},{158,7602266617613447482u},{158,7683624815959771917u},
{159,100378900743539u},{159,106057964827882u},{159,111737028912225u},{159,117416092996568u},{159,123095157080911u},{159,128405370610327u},{159,134084434694670u},{159,139763498779013u},{159,217794993740107u},{159,223474057824450u},{159,262489805304997u},{159,268168869389340u},{159,435589987480214u},{159,441269051564557u},{159,446948115648900u},{159,524979610609994u},{159,530658674694337u},{159,536337738778680u},{159,882538103129114u},{159,888217167213457u},{159,993168580376558u},{159,998847644460901u},{159,1055638285304331u},{159,1061317349388674u},{159,1066996413473017u},{159,1765076206258228u},{159,1770755270342571u},{159,2122634698777348u},{159,2832072619731245u},{159,3530152412516456u},{159,3541510540685142u},{159,4245269397554696u},{159,4954707318508593u},{159,5664145239462490u},{159,8490538795109392u},{159,9199976716063289u},{159,9909414637017186u},{159,10618852557971083u},{159,16981077590218784u},{159,18399953432126578u},{159,30414965575668083u},{159,33962155180437568u},{159,47396043165886867u},{159,50233794849702455u},{159,78520446662508847u},{159,94792086331773734u},{159,100467589699404910u},{159,111063726001038621u},{159,116739229368669797u},{159,1002411285693163177u},{159,1005822177759908430u},{159,1011861141228937558u},
{160,101588483671393u},{160,107267547755736u},{160,173100182175217u},{160,178779246259560u},{160,208856031427129u},{160,214535095511472u},{160,351879428434777u},{160,357558492519120u},{160,429070191022944u},{160,566414523946249u},{160,703758856869554u},{160,835424125708516u},{160,858140382045888u},{160,972768458631821u},{160,995484714969193u},{160,1132829047892498u},{160,1270173380815803u},{160,2265658095784996u},{160,2975096016738893u},{160,4531316191569992u},{160,5515442778370499u},{160,7209007286124903u},{160,9062632383139984u},{160,10046758969940491u},{160,11030885556740998u},{160,20093517939880982u},{160,21077644526681489u},{160,40187035879761964u},{160,41171162466562471u},{160,66070685263860055u},{160,82342324933124942u},{160,98613964602389829u},{160,100056603495534068u},{160,100582217775990843u},{160,101107832056447618u},{160,829853623132509237u},{160,862396902471039011u},{160,894940181809568785u},{160,5629461711285194127u},{160,5759634828639313223u},{160,5889807945993432319u},{160,6019981063347551415u},{160,6150154180701670511u},{160,6280327298055789607u},
{161,104196402254301u},{161,115554530422987u},{161,143023397007648u},{161,258577927430635u},{161,286046794015296u},{161,313515660599957u},{161,627031321199914u},{161,709437920953897u},{161,819313387292541u},{161,929188853631185u},{161,1034311709722540u},{161,1039064319969829u},{161,1144187176061184u},{161,1148939786308473u},{161,1254062642399828u},{161,1258815252647117u},{161,1418875841907794u},{161,1638626774585082u},{161,2183251496031013u},{161,2403002428708301u},{161,3821878270616095u},{161,5570380511539821u},{161,7643756541232190u},{161,8627883128032697u},{161,10032501139198624u},{161,10070522021176936u},{161,10099603113311667u},{161,13214137052772011u},{161,19329142285757763u},{161,22386644902250639u},{161,26428274105544022u},{161,38658284571515526u},{161,52856548211088044u},{161,69128187880352931u},{161,89441456752911201u},{161,89546579609002556u},{161,105713096422176088u},{161,121984736091440975u},{161,138256375760705862u},{161,178988036361913757u},{161,211531315700443531u},{161,244074595038973305u},{161,683303743253033899u},{161,813476860607152995u},{161,943649977961272091u},{161,1073823095315391187u},{161,1203996212669510283u},{161,1399255888700688927u},{161,2147646190630782374u},{161,2407992425339020566u},{161,3807248314039709493u},{161,4815984850678041132u},{161,6085067622024610963u},{161,8102540695301274241u},{161,9631969701356082264u},
{162,103431170972254u},{162,116319761705034u},{162,124455742190525u},{162,164813199507966u},{162,185837770726237u},{162,206862341944508u},{162,227886913162779u},{162,350650970234203u},{162,371675541452474u},{162,392700112670745u},{162,413724683889016u},{162,743351082904948u},{162,764375654123219u},{162,785400225341490u},{162,1012642248284241u},{162,1507726737028167u},{162,1528751308246438u},{162,1549775879464709u},{162,3015453474056334u},{162,3036478045274605u},{162,3057502616492876u},{162,3078527187711147u},{162,6072956090549210u},{162,6093980661767481u},{162,6115005232985752u},{162,6136029804204023u},{162,12166936752316691u},{162,12187961323534962u},{162,12208985894753233u},{162,12230010465971504u},{162,24375922647069924u},{162,24396947218288195u},{162,24417971789506466u},{162,24438996360724737u},{162,48772869865358119u},{162,48793894436576390u},{162,48814919007794661u},{162,48835943579012932u},{162,65023484963404735u},{162,65065534105841277u},{162,65107583248277819u},{162,65149632390714361u},{162,97545739730716238u},{162,97629838015589322u},{162,130131068211682554u},{162,162695372121430599u},{162,195259676031178644u},{162,325390744242861198u},{162,390519352062357288u},{162,422999557687232249u},{162,488128165506728339u},{162,553172675041351345u},{162,650781488485722396u},{162,1008568340068585471u},{162,1008904733208077807u},{162,1106345350082702690u},{162,3351684452442729199u},{162,3546902079331471301u},{162,3742119706220213403u},{162,5173939898830650375u},{162,5564375152608134579u},{162,7093804158662942602u},{162,8818450791606492727u},{162,9567009290106332342u},{162,9599321299161461135u},
{163,100370245844066u},{163,100773071889889u},{163,101175897935712u},{163,136055473850027u},{163,157080045068298u},{163,178104616286569u},{163,293135518918325u},{163,314160090136596u},{163,335184661354867u},{163,586271037836650u},{163,607295609054921u},{163,628320180273192u},{163,1193566646891571u},{163,1214591218109842u},{163,1235615789328113u},{163,2429182436219684u},{163,2450207007437955u},{163,4858364872439368u},{163,4879389443657639u},{163,4900414014875910u},{163,9716729744878736u},{163,9737754316097007u},{163,9758778887315278u},{163,9779803458533549u},{163,9800828029751820u},{163,9821852600970091u},{163,13004696992680947u},{163,19517557774630556u},{163,26009393985361894u},{163,32522254767311503u},{163,39035115549261112u},{163,78070231098522224u},{163,91095952662421442u},{163,110634535008270269u},{163,136685978136068705u},{163,221269070016540538u},{163,318877883460911589u},{163,370980769716508461u},{163,442538140033081076u},{163,592249839733048999u},{163,787467466621791101u},{163,885076280066162152u},{163,943776125388581717u},{163,1034787979766130075u},{163,1184499679466097998u},{163,1574934933243582202u},{163,1919864259832292227u},{163,2069575959532260150u},{163,3299581566187132327u},{163,3989440219364552377u},{163,4139151919064520300u},{163,7829168739029136831u},{163,7978880438729104754u},{163,8128592138429072677u},{163,8278303838129040600u},{163,8428015537829008523u},
{164,117254207567330u},{164,138278778785601u},{164,159303350003872u},{164,234508415134660u},{164,255532986352931u},{164,469016830269320u},{164,490041401487591u},{164,511065972705862u},{164,938033660538640u},{164,959058231756911u},{164,980082802975182u},{164,1001107374193453u},{164,1022131945411724u},{164,1939141034732093u},{164,1960165605950364u},{164,3920331211900728u},{164,9126414923216761u},{164,10075774283139730u},{164,10159872568012814u},{164,10243970852885898u},{164,19538582345848827u},{164,27337195627213741u},{164,42934422189943569u},{164,54674391254427482u},{164,84414895310725665u},{164,85868844379887138u},{164,87322793449048611u},{164,96154864375209578u},{164,99062762513532524u},{164,109348782508854964u},{164,121088751573338877u},{164,154854709697629143u},{164,206957595953226015u},{164,413915191906452030u},{164,540146953477452127u},{164,678118684112936137u},{164,827830383812904060u},{164,977542083512871983u},{164,1080293906954904254u},{164,1230005606654872177u},{164,1505949067925840197u},{164,1655660767625808120u},{164,2609722913009712277u},{164,3161609835551648317u},{164,3311321535251616240u},{164,6622643070503232480u},{164,8680479060971008717u},
{165,100273420174384u},{165,108357883151615u},{165,114827937272135u},{165,121297991392655u},{165,166582160889457u},{165,187606732107728u},{165,208631303325999u},{165,229655874544270u},{165,354188892997185u},{165,375213464215456u},{165,396238035433727u},{165,417262606651998u},{165,535325570984393u},{165,750426928430912u},{165,792476070867454u},{165,1002721783050164u},{165,1007577428313973u},{165,1012433073577782u},{165,1070651141968786u},{165,1327801641851847u},{165,1584952141734908u},{165,3941355783118999u},{165,8743116996024074u},{165,9168464065653303u},{165,9771718995556318u},{165,11225668064717791u},{165,12254270064250035u},{165,13282872063782279u},{165,14311474063314523u},{165,15340076062846767u},{165,16368678062379011u},{165,16882979062145133u},{165,24508540128500070u},{165,26565744127564558u},{165,28622948126629046u},{165,30680152125693534u},{165,41391519190645203u},{165,53131488255129116u},{165,57245896253258092u},{165,66928661318677517u},{165,75157477314935469u},{165,82783038381290406u},{165,90408599447645343u},{165,98637415443903295u},{165,106262976510258232u},{165,114491792506516184u},{165,122117353572871121u},{165,130346169569129073u},{165,165566076762580812u},{165,204900391954161527u},{165,236609146079387305u},{165,331132153525161624u},{165,402175222841968117u},{165,480843853225129547u},{165,662264307050323248u},{165,811976006750291171u},{165,954062145383904157u},{165,1324528614100646496u},{165,1616326452434227405u},{165,1915749851834163251u},{165,2357259389867712083u},{165,2649057228201292992u},{165,2940855066534873901u},{165,4123297542001907411u},{165,5298114456402585984u},{165,5589912294736166893u},{165,5881710133069747802u},{165,9137239721137267423u},{165,9429037559470848332u},{165,9720835397804429241u},
{166,101573640345326u},{166,101894038377933u},{166,102214436410540u},{166,102534834443147u},{166,102855232475754u},{166,115474942684187u},{166,141675557198874u},{166,183724699635416u},{166,230949885368374u},{166,283351114397748u},{166,351600871348977u},{166,446051242814893u},{166,582550756717351u},{166,703201742697954u},{166,892102485629786u},{166,923799541473496u},{166,1165101513434702u},{166,1285752499415305u},{166,2450854012850007u},{166,4901708025700014u},{166,5022359011680617u},{166,9682765065419425u},{166,9803416051400028u},{166,9924067037380631u},{166,10044718023361234u},{166,19606832102800056u},{166,19727483088780659u},{166,31588103139245175u},{166,39454966177561318u},{166,47321829215877461u},{166,63176206278490350u},{166,78909932355122636u},{166,94643658431754922u},{166,101786615554187447u},{166,102269219498109859u},{166,102751823442032271u},{166,103234427385954683u},{166,133977973623335637u},{166,189287316863509844u},{166,323265290486845481u},{166,591221237733516755u},{166,646530580973690962u},{166,890644637133452601u},{166,930702858240916934u},{166,1001263323613801015u},{166,1293061161947381924u},{166,1474240313800614419u},{166,2002526647227602030u},{166,2294324485561182939u},{166,4588648971122365878u},{166,5826400789829573595u},{166,7355950446870362221u},{166,9177297942244731756u},{166,9831454084284777655u},
{167,257150499883061u},{167,263489911051803u},{167,514300999766122u},{167,647630808084209u},{167,907951013551641u},{167,1028601999532244u},{167,1149252985512847u},{167,1295261616168418u},{167,1936553013083885u},{167,3873106026167770u},{167,3993757012148373u},{167,6317620627849035u},{167,9416105448783251u},{167,10362092929347344u},{167,10603394901308550u},{167,12635241255698070u},{167,17403619473079997u},{167,25270482511396140u},{167,30038860728778067u},{167,50540965022792280u},{167,77240038958674925u},{167,97259539308766726u},{167,99170734677175643u},{167,101081930045584560u},{167,118244247546703351u},{167,137317760416231059u},{167,154480077917349850u},{167,200252664722760203u},{167,236488495093406702u},{167,272724325464053201u},{167,400505329445520406u},{167,472976990186813404u},{167,801010658891040812u},{167,945953980373626808u},{167,1020336836483328723u},{167,1165280157965914719u},{167,1310223479448500715u},{167,1602021317782081624u},{167,1966290816856955531u},{167,2330560315931829438u},{167,2694829815006703345u},{167,3568312134639037155u},{167,3932581633713911062u},{167,4296851132788784969u},{167,5025390130938532783u},{167,5389659630013406690u},{167,7136624269278074310u},{167,7865163267427822124u},{167,8593702265577569938u},
{168,107931728888218u},{168,114311574811861u},{168,120610551225702u},{168,126990397149345u},{168,133329808318087u},{168,152388476579214u},{168,171447144840341u},{168,234922126037563u},{168,253980794298690u},{168,266659616636174u},{168,304776953158428u},{168,387310602616777u},{168,469844252075126u},{168,507961588597380u},{168,653970219252951u},{168,774621205233554u},{168,895272191214157u},{168,1015923177194760u},{168,1028521130022442u},{168,1047741537303173u},{168,1060339490130855u},{168,1263524125569807u},{168,1549242410467108u},{168,1834960695364409u},{168,2120678980261710u},{168,2241329966242313u},{168,2527048251139614u},{168,2812766536036915u},{168,3098484820934216u},{168,3384203105831517u},{168,4482659932484626u},{168,5054096502279228u},{168,5625533072073830u},{168,6196969641868432u},{168,8965319864969252u},{168,9339870775738743u},{168,10108193004558456u},{168,11251066144147660u},{168,14305134652145781u},{168,15448007791734985u},{168,16590880931324189u},{168,20216386009116912u},{168,24413327656704237u},{168,26699073935882645u},{168,30896015583469970u},{168,40432772018233824u},{168,46915459944999557u},{168,55309343240174207u},{168,61792031166939940u},{168,78954348668058731u},{168,80865544036467648u},{168,93830919889999114u},{168,95742115258408031u},{168,108707491111939497u},{168,110618686480348414u},{168,123584062333879880u},{168,232291553445819377u},{168,247168124667759760u},{168,262044695889700143u},{168,509212820557459903u},{168,524089391779400286u},{168,538965963001340669u},{168,683909284483926665u},{168,713662426927807431u},{168,743415569371688197u},{168,1018425641114919806u},{168,1048178783558800572u},{168,1077931926002681338u},{168,1092808497224621721u},{168,1427324853855614862u},{168,1761841210486608003u},{168,1821347495374369535u},{168,2155863852005362676u},{168,2185616994449243442u},{168,2520133351080236583u},{168,2854649707711229724u},{168,3977211347379732211u},{168,5040266702160473166u},{168,5709299415422459448u},{168,6831861055090961935u},{168,7500893768352948217u},{168,8623455408021450704u},{168,8742467977796973768u},{168,8957971764652443845u},
{169,101592317719476u},{169,104176603892854u},{169,105307007959939u},{169,194301372851733u},{169,203184635438952u},{169,212067898026171u},{169,406369270877904u},{169,415252533465123u},{169,424135796052342u},{169,544786782032945u},{169,562553307207383u},{169,830505066930246u},{169,848271592104684u},{169,857154854691903u},{169,892687905040779u},{169,1125106614414766u},{169,1393058374137629u},{169,1696543184209368u},{169,2250213228829532u},{169,3089601558346997u},{169,3661038128141599u},{169,4500426457659064u},{169,5339814787176529u},{169,7322076256283198u},{169,7554494965657185u},{169,9000852915318128u},{169,9233271624692115u},{169,10679629574353058u},{169,12358406233387988u},{169,16555347880975313u},{169,21359259148706116u},{169,24716812466775976u},{169,34557053711611569u},{169,41272160347751289u},{169,49433624933551952u},{169,83990678645163521u},{169,98867249867103904u},{169,100313607816764847u},{169,101759965766425790u},{169,103206323716086733u},{169,136781856896785333u},{169,166534999340666099u},{169,197734499734207808u},{169,242364213400028957u},{169,273563713793570666u},{169,364269499074873907u},{169,547127427587141332u},{169,637833212868444573u},{169,728538998149747814u},{169,878751068318812587u},{169,912843284611676182u},{169,969456853600115828u},{169,1275666425736889146u},{169,1366372211018192387u},{169,1457077996299495628u},{169,1791594352930488769u},{169,2732744422036384774u},{169,3583188705860977538u},{169,4524338774966873543u},{169,5465488844072769548u},{169,6406638913178665553u},{169,7166377411721955076u},{169,8107527480827851081u},{169,9048677549933747086u},{169,9989827619039643091u},
{170,108957356406589u},{170,126723881581027u},{170,141227878141836u},{170,158994403316274u},{170,217914712813178u},{170,285718284897301u},{170,403558903891109u},{170,435829425626356u},{170,571436569794602u},{170,603707091529849u},{170,703781185349219u},{170,807117807782218u},{170,871658851252712u},{170,974995473685711u},{170,1039536517156205u},{170,1142873139589204u},{170,1207414183059698u},{170,1310750805492697u},{170,1510898993131437u},{170,1846654324938423u},{170,2182409656745409u},{170,3021797986262874u},{170,3693308649876846u},{170,8832975249414635u},{170,10072659954209580u},{170,10175996576642579u},{170,10279333199075578u},{170,10382669821508577u},{170,13533549894712439u},{170,16219592549168327u},{170,27067099789424878u},{170,33885543047997597u},{170,39257628356909373u},{170,60952642837422475u},{170,78515256713818746u},{170,85333699972391465u},{170,87813069381981355u},{170,93598501180625127u},{170,94631512640554074u},{170,115086842416272231u},{170,121905285674844950u},{170,163848956686210211u},{170,236992128091117181u},{170,327697913372420422u},{170,467165812923661643u},{170,473984256182234362u},{170,662214270003413563u},{170,746101612026144085u},{170,759738498543289523u},{170,934331625847323286u},{170,947968512364468724u},{170,1122561639668502487u},{170,1136198526185647925u},{170,1324428540006827126u},
{171,100074093819370u},{171,107833209611871u},{171,207907303431241u},{171,215666419223742u},{171,327996216014485u},{171,343514447599487u},{171,415814606862482u},{171,503632997710479u},{171,583692272765975u},{171,759329054461969u},{171,831629213724964u},{171,1007265995420958u},{171,1038302458590962u},{171,1079566154683953u},{171,1518658108923938u},{171,1766595049882927u},{171,2014531990841916u},{171,3285253158806865u},{171,3533190099765854u},{171,3781127040724843u},{171,4029063981683832u},{171,4628274486034809u},{171,5124148367952787u},{171,7066380199531708u},{171,7562254081449686u},{171,9256548972069618u},{171,9297812668162609u},{171,10248296735905574u},{171,12190528567484495u},{171,14132760399063416u},{171,15124508162899372u},{171,17066739994478293u},{171,17562613876396271u},{171,24381057134968990u},{171,27315036730383867u},{171,34133479988956586u},{171,41943671011365261u},{171,48762114269937980u},{171,61448516719340453u},{171,68266959977913172u},{171,83887342022730522u},{171,90705785281303241u},{171,97524228539875960u},{171,129715476697253625u},{171,136533919955826344u},{171,149220322405228817u},{171,195048457079751920u},{171,227239705237129585u},{171,259430953394507250u},{171,298440644810457634u},{171,454479410474259170u},{171,486670658631636835u},{171,596881289620915268u},{171,720728807127339139u},{171,785111303442094469u},{171,908958820948518340u},{171,1032806338454942211u},{171,1037723813578029000u},{171,1097188834769697541u},{171,1317610096748254407u},{171,1694070124390612809u},{171,2070530152032971211u},{171,2635220193496508814u},{171,2759067711002932685u},{171,3388140248781225618u},{171,3511987766287649489u},{171,4264907821572366293u},{171,4641367849214724695u},{171,6147207959784158303u},{171,7653048070353591911u},{171,9282735698429449390u},{171,9664113201194894581u},{171,9778125768455144874u},
{172,106862939295888u},{172,107921139028291u},{172,116738454553195u},{172,131198486405794u},{172,145658518258393u},{172,233476909106390u},{172,262396972811588u},{172,423573722654983u},{172,466953818212780u},{172,657050631761373u},{172,847147445309966u},{172,892643940332569u},{172,933907636425560u},{172,967060499060370u},{172,975171332518551u},{172,1124004449974153u},{172,1314101263522746u},{172,2248008899948306u},{172,2438105713496899u},{172,2628202527045492u},{172,4686114613445205u},{172,4876211426993798u},{172,5066308240542391u},{172,9372229226890410u},{172,9562326040439003u},{172,9752422853987596u},{172,9942519667536189u},{172,10132616481084782u},{172,19504845707975192u},{172,25943095339450725u},{172,32571441784474851u},{172,39009691415950384u},{172,45447941047425917u},{172,51886190678901450u},{172,65142883568949702u},{172,71581133200425235u},{172,78019382831900768u},{172,97334131726327367u},{172,103772381357802900u},{172,110210630989278433u},{172,156038765663801536u},{172,168915264926752602u},{172,181791764189703668u},{172,194668263452654734u},{172,207544762715605800u},{172,363583528379407336u},{172,389336526905309468u},{172,551813542200586537u},{172,727167056758814672u},{172,897603096193956018u},{172,928273569842944939u},{172,958944043491933860u},{172,1103627084401173074u},{172,1278980598959401209u},{172,1856547139685889878u},{172,2031900654244118013u},{172,2207254168802346148u},{172,3713094279371779756u},{172,6549420985952418837u},{172,6900128015068875107u},{172,7426188558743559512u},{172,9911808236207742323u},
{173,154546177316433u},{173,157861463579914u},{173,186781527285112u},{173,247936940958989u},{173,373563054570224u},{173,563659868118817u},{173,685970695466571u},{173,747126109140448u},{173,937222922689041u},{173,1127319736237634u},{173,1317416549786227u},{173,1371941390933142u},{173,1874445845378082u},{173,2064542658926675u},{173,3748891690756164u},{173,5188619067890145u},{173,6058056004378347u},{173,6818443258572719u},{173,7497783381512328u},{173,8937510758646309u},{173,10377238135780290u},{173,11056578258719899u},{173,11137625389974662u},{173,14316226640085047u},{173,20754476271560580u},{173,28632453280170094u},{173,41508952543121160u},{173,47947202174596693u},{173,57264906560340188u},{173,83017905086242320u},{173,93694289717865033u},{173,95894404349193386u},{173,98094518980521739u},{173,130965107260839013u},{173,166035810172484640u},{173,736484761144558167u},{173,806626166967849421u},{173,876767572791140675u},{173,3327316547343677859u},{173,3607882170636842875u},{173,3888447793930007891u},{173,6654633094687355718u},{173,7215764341273685750u},{173,7776895587860015782u},{173,9841666830384451069u},
{174,128941399874716u},{174,391098595326569u},{174,412908531785335u},{174,434718468244101u},{174,613910313563311u},{174,825817063570670u},{174,1037723813578029u},{174,1081343686495561u},{174,1227820627126622u},{174,1483347250051513u},{174,1651634127141340u},{174,2075447627156058u},{174,2287354377163417u},{174,3134981377192853u},{174,3303268254282680u},{174,4150895254312116u},{174,4574708754326834u},{174,4742995631416661u},{174,6438249631475533u},{174,8301790508624232u},{174,9149417508653668u},{174,9485991262833322u},{174,9822565017012976u},{174,11012958385802367u},{174,12876499262951066u},{174,14740040140099765u},{174,22025916771604734u},{174,25752998525902132u},{174,29480080280199530u},{174,38797784665943025u},{174,46251948174537821u},{174,58960160560399060u},{174,66414324068993856u},{174,77595569331886050u},{174,82849618209152493u},{174,92503896349075642u},{174,97757945226342085u},{174,112666272243531677u},{174,132828648137987712u},{174,175353514558228135u},{174,195515890452684170u},{174,245494920381519389u},{174,265657296275975424u},{174,350707029116456270u},{174,370869405010912305u},{174,490989840763038778u},{174,511152216657494813u},{174,721576434127368575u},{174,741738810021824610u},{174,1002142057420533591u},{174,1022304433314989626u},{174,1042466809209445661u},{174,1062629185103901696u},{174,1142424869067116099u},{174,1443152868254737150u},{174,1743880867442358201u},{174,2004284114841067182u},{174,2886305736509474300u},{174,3748164982283425383u},{174,4349620980658667485u},{174,5772611473018948600u},{174,7235926717168141785u},{174,7496329964566850766u},{174,8959645208716043951u},{174,9139398952536928792u},{174,9561101207091286053u},{174,9982803461645643314u},
{175,101268178440140u},{175,104391642815833u},{175,107515107191526u},{175,110638571567219u},{175,140230011879675u},{175,165163412714134u},{175,190096813548593u},{175,330326825428268u},{175,398880099180259u},{175,660653650856536u},{175,729206924608527u},{175,909987659201126u},{175,953553217947573u},{175,984733547533418u},{175,1015913877119263u},{175,1321307301713072u},{175,1626700726306881u},{175,2642614603426144u},{175,2948008028019953u},{175,3253401452613762u},{175,5590622631446097u},{175,5896016056039906u},{175,6201409480633715u},{175,7148770084000987u},{175,7759556933188605u},{175,8370343782376223u},{175,11181245262892194u},{175,11792032112079812u},{175,12402818961267430u},{175,15519113866377210u},{175,19551589045268417u},{175,23584064224159624u},{175,27616539403050831u},{175,31038227732754420u},{175,35070702911645627u},{175,39103178090536834u},{175,43135653269428041u},{175,47168128448319248u},{175,58043980286617633u},{175,62076455465508840u},{175,66108930644400047u},{175,74173881002182461u},{175,78206356181073668u},{175,82238831359964875u},{175,102401207254420910u},{175,106433682433312117u},{175,110466157612203324u},{175,132217861288800094u},{175,136250336467691301u},{175,140282811646582508u},{175,148347762004364922u},{175,152380237183256129u},{175,156412712362147336u},{175,280565623293165016u},{175,288630573650947430u},{175,296695524008729844u},{175,304760474366512258u},{175,577261147301894860u},{175,593391048017459688u},{175,853794295416168669u},{175,869924196131733497u},{175,926378848636210395u},{175,958638650067340051u},{175,990898451498469707u},{175,1154522294603789720u},{175,1447185343433628357u},{175,1739848392263466994u},{175,2016381540377740803u},{175,2309044589207579440u},{175,2601707638037418077u},{175,2894370686867256714u},{175,3187033735697095351u},{175,3740100031925642969u},{175,4032763080755481606u},{175,4325426129585320243u},{175,5203415276074836154u},{175,5496078324904674791u},{175,5788741373734513428u},{175,7480200063851285938u},{175,8065526161510963212u},{175,8650852259170640486u},
{176,112184009503740u},{176,118420075420909u},{176,230604084924649u},{176,236840150841818u},{176,461208169849298u},{176,467444235766467u},{176,922416339698596u},{176,934888471532934u},{176,1227809764292405u},{176,1240281896126743u},{176,1252754027961081u},{176,1551911386637721u},{176,2480563792253486u},{176,2798429348681633u},{176,3103822773275442u},{176,4961127584506972u},{176,5278993140935119u},{176,5889779990122737u},{176,6207645546550884u},{176,6525511102979031u},{176,9922255169013944u},{176,10240120725442091u},{176,10557986281870238u},{176,10875851838298385u},{176,11193717394726532u},{176,12415291093101768u},{176,16447766271992975u},{176,20480241450884182u},{176,24830582186203536u},{176,28863057365094743u},{176,32895532543985950u},{176,36928007722877157u},{176,40960482901768364u},{176,49661164372407072u},{176,57726114730189486u},{176,65791065087971900u},{176,91475466888785173u},{176,93800302838456906u},{176,96561315791635525u},{176,99322328744814144u},{176,115452229460378972u},{176,161080918653894837u},{176,177210819369459665u},{176,185275769727242079u},{176,230904458920757944u},{176,276533148114273809u},{176,354421638738919330u},{176,416180228648000023u},{176,461808917841515888u},{176,507437607035031753u},{176,741103078908968316u},{176,832360457296000046u},{176,923617835683031776u},{176,1014875214070063506u},{176,1216280884512870413u},{176,1307538262899902143u},{176,1847235671366063552u},{176,2432561769025740826u},{176,3694471342732127104u},{176,4865123538051481652u},{176,5249043965268352019u},{176,7005022258247383841u},{176,7388942685464254208u},{176,9730247076102963304u},
{177,102219339437330u},{177,245561952858481u},{177,305393424593809u},{177,437528499898803u},{177,491123905716962u},{177,610786849187618u},{177,875056999797606u},{177,928652405615765u},{177,982247811433924u},{177,1032136338771276u},{177,1035843217252083u},{177,1085731744589435u},{177,1089438623070242u},{177,1139327150407594u},{177,1432248443167065u},{177,1857304811231530u},{177,2175170367659677u},{177,3289553254398595u},{177,4350340735319354u},{177,6579106508797190u},{177,7639893989717949u},{177,9336412583495002u},{177,9554501085248445u},{177,9757762073078660u},{177,9975850574832103u},{177,12097425536673621u},{177,13158213017594380u},{177,14219000498515139u},{177,15279787979435898u},{177,26316426035188760u},{177,35442163873891933u},{177,43507114231674347u},{177,52632852070377520u},{177,61758589909080693u},{177,77888490624645521u},{177,87014228463348694u},{177,96139966302051867u},{177,105265704140755040u},{177,114391441979458213u},{177,123517179818161386u},{177,283537310991135464u},{177,292663048829838637u},{177,329166000184651329u},{177,585326097659677274u},{177,658332000369302658u},{177,896240622166922257u},{177,969246524876547641u},{177,1042252427586173025u},{177,1134149243964541856u},{177,1554572622536224915u},{177,2176401671550714881u},{177,3347053866870069429u},{177,4590711964899049361u},{177,6456199111942519259u},{177,9181423929798098722u},{177,9365217562554836384u},{177,9711356162434219857u},{177,9841034806150075582u},
{178,103955009573289u},{178,106719735218540u},{178,110426613699347u},{178,113191339344598u},{178,132135075304994u},{178,154314613328419u},{178,185730481123153u},{178,217146348917887u},{178,286449688633413u},{178,371460962246306u},{178,487888103653933u},{178,572899377266826u},{178,657910650879719u},{178,742921924492612u},{178,827933198105505u},{178,935124009741823u},{178,975776207307866u},{178,1145798754533652u},{178,1315821301759438u},{178,1485843848985224u},{178,1655866396211010u},{178,2291597509067304u},{178,2631642603518876u},{178,2971687697970448u},{178,3862452631665421u},{178,5263285207037752u},{178,6664117782410083u},{178,7724905263330842u},{178,8445647649800029u},{178,9805828027606317u},{178,10526570414075504u},{178,13328235564820166u},{178,14048977951289353u},{178,15449810526661684u},{178,21053140828151008u},{178,24575548365364857u},{178,42106281656302016u},{178,45628689193515865u},{178,84212563312604032u},{178,87734970849817881u},{178,110148292055775177u},{178,113670699592989026u},{178,135444582807609221u},{178,175469941699635762u},{178,208450485517234605u},{178,244953436872047297u},{178,310914524507244983u},{178,376875612142442669u},{178,416900971034469210u},{178,515842602487265739u},{178,621829049014489966u},{178,727815495541714193u},{178,859737670812109565u},{178,949390955635938749u},{178,953878018745018043u},{178,979813747488189188u},{178,1243658098028979932u},{178,1481566719826599531u},{178,1693539612881047985u},{178,2037434681205891811u},{178,2487316196057959864u},{178,2937197710910027917u},{178,4074869362411783622u},{178,5900331150563226979u},{178,6800094180267363085u},{178,8149738724823567244u},{178,8175674453566738389u},{178,9975200512975010601u},
{179,156714824411731u},{179,165586639621101u},{179,174458454830471u},{179,237290190419939u},{179,255033820838679u},{179,331173279242202u},{179,662346558484404u},{179,756229647306667u},{179,796881844872710u},{179,908508564113713u},{179,949160761679756u},{179,1060787480920759u},{179,1213066397727805u},{179,1324693116968808u},{179,1817017128227426u},{179,8293368732992983u},{179,9125737838703173u},{179,9958106944413363u},{179,10790476050123553u},{179,10983407164496642u},{179,11622845155833743u},{179,14729068140192497u},{179,18251475677406346u},{179,36502951354812692u},{179,41690097103446921u},{179,78193048458259613u},{179,83380194206893842u},{179,88567339955528071u},{179,94140347932908478u},{179,97083962127003060u},{179,99327493681542707u},{179,166760388413787684u},{179,171947534162421913u},{179,177134679911056142u},{179,333520776827575368u},{179,338707922576209597u},{179,343895068324843826u},{179,672228699403784965u},{179,677415845152419194u},{179,682602990901053423u},{179,687790136649687652u},{179,1344457398807569930u},{179,1349644544556204159u},{179,1354831690304838388u},{179,1360018836053472617u},{179,1365205981802106846u},{179,1370393127550741075u},{179,2714850526358311005u},{179,2720037672106945234u},{179,2725224817855579463u},{179,5434888198465256239u},{179,5440075344213890468u},{179,5445262489962524697u},{179,7244788549370796909u},{179,7255162840868065367u},{179,7265537132365333825u},
{180,159376368974542u},{180,242613279545561u},{180,485226559091122u},{180,568463469662141u},{180,970453118182244u},{180,1053690028753263u},{180,1136926939324282u},{180,4021829000639963u},{180,4354776642924039u},{180,4854198106350153u},{180,8709553285848078u},{180,9428363156878332u},{180,9568379684789319u},{180,9708396212700306u},{180,9848412740611293u},{180,9988429268522280u},{180,13563751392198231u},{180,14895541961334535u},{180,17419106571696156u},{180,32314648533030691u},{180,64629297066061382u},{180,69816442814695611u},{180,124071448383488535u},{180,129258594132122764u},{180,134445739880756993u},{180,139632885629391222u},{180,144820031378025451u},{180,268891479761513986u},{180,274078625510148215u},{180,537782959523027972u},{180,542970105271662201u},{180,548157251020296430u},{180,1065191627548787486u},{180,1070378773297421715u},{180,1075565919046055944u},{180,1091127356291958631u},{180,1096314502040592860u},{180,1101501647789227089u},{180,1453107426473066765u},{180,2171880421086648804u},{180,2906214852946133530u},{180,3624987847559715569u},{180,6531202700505849099u},{180,7249975695119431138u},{180,9593031925911009499u},
{181,101950267376648u},{181,108401235286218u},{181,112919687756855u},{181,114852203195788u},{181,155504400761831u},{181,177443241522245u},{181,249710731713057u},{181,354886483044490u},{181,416184552855095u},{181,499421463426114u},{181,604597214757547u},{181,832369105710190u},{181,963348728679903u},{181,964002150272674u},{181,998842926852228u},{181,999496348444999u},{181,1104018678183661u},{181,1209194429515094u},{181,1769913962751813u},{181,2208037356367322u},{181,2979108392266907u},{181,3855355179497925u},{181,4416074712734644u},{181,5958216784533814u},{181,7710710358995850u},{181,8832149425469288u},{181,9813571964031739u},{181,11916433569067628u},{181,12897856107630079u},{181,18645721389501027u},{181,19627143928063478u},{181,24814289676697707u},{181,44441433604761185u},{181,49628579353395414u},{181,54815725102029643u},{181,99257158706790828u},{181,104444304455425057u},{181,109631450204059286u},{181,114818595952693515u},{181,208888608910850114u},{181,214075754659484343u},{181,219262900408118572u},{181,224450046156752801u},{181,280247193797344895u},{181,290621485294613353u},{181,428151509318968686u},{181,438525800816237144u},{181,581242970589226706u},{181,729147286110850497u},{181,877051601632474288u},{181,991168808102427326u},{181,993833042662292705u},{181,996497277222158084u},{181,1162485941178453412u},{181,1458294572221700994u},{181,1585450304748787869u},{181,1881258935792035451u},{181,2324971882356906824u},{181,2747936245927241281u},{181,3339553508013736445u},{181,3762517871584070902u},{181,4649943764713813648u},{181,5072908128284148105u},{181,6679107016027472890u},{181,7102071379597807347u},{181,9299887529427627296u},{181,9722851892997961753u},
{182,117435365293554u},{182,141954593217796u},{182,166473821142038u},{182,283909186435592u},{182,332947642284076u},{182,511681077388235u},{182,665895284568152u},{182,771071035899585u},{182,827208331382534u},{182,883345626865483u},{182,967224859293521u},{182,1023362154776470u},{182,1079499450259419u},{182,1331790569136304u},{182,1387927864619253u},{182,1542142071799170u},{182,2158998900518838u},{182,2775855729238506u},{182,3084284143598340u},{182,4570288919914561u},{182,5804002577353897u},{182,6168568287196680u},{182,6420859406073565u},{182,8888286720952237u},{182,9140577839829122u},{182,11103422916954024u},{182,11355714035830909u},{182,11608005154707794u},{182,11860296273584679u},{182,12841718812147130u},{182,17776573441904474u},{182,22963719190538703u},{182,35553146883808948u},{182,40740292632443177u},{182,45927438381077406u},{182,56049438759468979u},{182,81480585264886354u},{182,91854876762154812u},{182,96032858035281501u},{182,98051186986296581u},{182,98697092595146880u},{182,112098877518937958u},{182,137530024024355333u},{182,198766608532458541u},{182,224197755037875916u},{182,617048408591912539u},{182,667910701602747289u},{182,718772994613582039u},{182,795066434129834164u},{182,811132453613490621u},{182,896791020151503664u},{182,912857039635160121u},{182,1014581625656829621u},{182,1116306211678499121u},{182,1234096817183825078u},{182,1335821403205494578u},{182,1437545989227164078u},{182,2029163251313659242u},{182,2671642806410989156u},{182,4058326502627318484u},{182,5343285612821978312u},{182,7051209086586972597u},{182,8116653005254636968u},{182,9182096923922301339u},
{183,102336215477647u},{183,105175751331433u},{183,154214207179917u},{183,204672430955294u},{183,255130654730671u},{183,308428414359834u},{183,358886638135211u},{183,409344861910588u},{183,616856828719668u},{183,667315052495045u},{183,717773276270422u},{183,768231500045799u},{183,1020522618922684u},{183,1070980842698061u},{183,1233713657439336u},{183,1284171881214713u},{183,1334630104990090u},{183,1385088328765467u},{183,2467427314878672u},{183,2517885538654049u},{183,2568343762429426u},{183,2618801986204803u},{183,5035771077308098u},{183,5136687524858852u},{183,9667876364413180u},{183,9869709259514688u},{183,10273375049717704u},{183,15359604350801179u},{183,86465898118419075u},{183,96638356720586025u},{183,290722401742164107u},{183,321239777548664957u},{183,361929611957332757u},{183,642479555097329914u},{183,723859223914665514u},{183,943374415441660971u},{183,1024754084258996571u},{183,1106133753076332171u},{183,1162889606968656428u},{183,1187513421893667771u},{183,2049508168517993142u},{183,2350403028862324199u},{183,3033572418368321913u},{183,4700806057724648398u},{183,6067144836736643826u},{183,9401612115449296796u},{183,9806411316737868166u},{183,9865266313428299053u},
{184,106595519258326u},{184,109872277964315u},{184,133463010499009u},{184,183921234274386u},{184,234379458049763u},{184,266926020998018u},{184,317384244773395u},{184,367842468548772u},{184,483393818220659u},{184,533852041996036u},{184,584310265771413u},{184,634768489546790u},{184,958706251732163u},{184,966787636441318u},{184,974869021150473u},{184,982950405859628u},{184,1067704083992072u},{184,1168620531542826u},{184,1883117049107259u},{184,1933575272882636u},{184,2135408167984144u},{184,2950821133099331u},{184,3152654028200839u},{184,17293179623683815u},{184,19327671344117205u},{184,21362163064550595u},{184,34586359247367630u},{184,38655342688234410u},{184,42724326129101190u},{184,69172718494735260u},{184,101724586021669500u},{184,109862552903403060u},{184,118000519785136620u},{184,284618926580863937u},{184,317170794107798177u},{184,349722661634732417u},{184,382274529161666657u},{184,634341588215596354u},{184,699445323269464834u},{184,967788316086861651u},{184,984484078409950097u},{184,992412131011872994u},{184,1000340183613795891u},{184,1398890646538929668u},{184,1667233639356326485u},{184,2000680367227591782u},{184,2399230830152725559u},{184,3334467278712652970u},{184,3733017741637786747u},{184,4001360734455183564u},{184,4399911197380317341u},{184,6668934557425305940u},{184,7067485020350439717u},{184,7466035483275573494u},{184,8002721468910367128u},{184,8799822394760634682u},{184,9474643903105088173u},{184,9596923320610902236u},
{185,126953697909358u},{185,177411921684735u},{185,179028198626566u},{185,253907395818716u},{185,356440120311301u},{185,507814791637432u},{185,509431068579263u},{185,711263963680771u},{185,712880240622602u},{185,812180411231525u},{185,815412965115187u},{185,1015629583274864u},{185,1018862137158526u},{185,1219078755318203u},{185,1222311309201865u},{185,1422527927361542u},{185,1425760481245204u},{185,3458635924736763u},{185,3865534268823441u},{185,4272432612910119u},{185,6917271849473526u},{185,7731068537646882u},{185,8544865225820238u},{185,10172458602166950u},{185,10986255290340306u},{185,11800051978513662u},{185,13834543698947052u},{185,15462137075293764u},{185,17089730451640476u},{185,27669087397894104u},{185,30924274150587528u},{185,34179460903280952u},{185,55338174795788208u},{185,98233624558096117u},{185,98811646535389514u},{185,99334916819288024u},{185,99912938796581421u},{185,281363739828170513u},{185,307405233849717905u},{185,333446727871265297u},{185,359488221892812689u},{185,385529715914360081u},{185,614810467699435810u},{185,666893455742530594u},{185,718976443785625378u},{185,831070472473737843u},{185,849183913893362338u},{185,935236448559927411u},{185,1039402424646116979u},{185,1229620935398871620u},{185,1333786911485061188u},{185,1437952887571250756u},{185,2078804849292233958u},{185,2373189336131178167u},{185,2667573822970122376u},{185,4746378672262356334u},{185,5040763159101300543u},{185,5335147645940244752u},{185,6426633058629456515u},{185,7015402032307344933u},{185,9492757344524712668u},
{186,100916447550754u},{186,102532724492585u},{186,141929537347788u},{186,143545814289619u},{186,162436082246305u},{186,244462261840373u},{186,324872164492610u},{186,488924523680746u},{186,528321336535949u},{186,649744328985220u},{186,977849047361492u},{186,1017245860216695u},{186,1056642673071898u},{186,1096039485927101u},{186,2034491720433390u},{186,4068983440866780u},{186,8137966881733560u},{186,9817887286470123u},{186,9870214314859974u},{186,9922541343249825u},{186,16275933763467120u},{186,19163618984929069u},{186,28929179243009341u},{186,32551867526934240u},{186,61481046769943581u},{186,81747170348567075u},{186,119339405255962263u},{186,122962093539887162u},{186,126584781823812061u},{186,245924187079774324u},{186,249546875363699223u},{186,491848374159548648u},{186,592391661961813317u},{186,689312261480153087u},{186,890398837084682425u},{186,983696748319097296u},{186,1091485412689211763u},{186,1184783323923626634u},{186,1285326611725891303u},{186,1780797674169364850u},{186,2570653223451782606u},{186,4645835384460091665u},{186,5141306446903565212u},{186,6225546483024927177u},{186,9291670768920183330u},
{187,104371245753725u},{187,116129672985160u},{187,121422992449271u},{187,129948865797044u},{187,164052359188136u},{187,203449172043339u},{187,242845984898542u},{187,259897731594088u},{187,333398037840383u},{187,406898344086678u},{187,480398650332973u},{187,519795463188176u},{187,593295769434471u},{187,666796075680766u},{187,813796688173356u},{187,887296994419651u},{187,960797300665946u},{187,987263897986501u},{187,997244370663464u},{187,1260091845115237u},{187,1333592151361532u},{187,1407092457607827u},{187,1627593376346712u},{187,1701093682593007u},{187,1774593988839302u},{187,2961185527708244u},{187,3108186140200834u},{187,3255186752693424u},{187,3402187365186014u},{187,3549187977678604u},{187,6216372280401668u},{187,6510373505386848u},{187,6804374730372028u},{187,8127380242805338u},{187,8222053826908077u},{187,8810056276878437u},{187,9398058726848797u},{187,9986061176819157u},{187,13020747010773696u},{187,16349434069713415u},{187,22418805737622493u},{187,26041494021547392u},{187,32698868139426830u},{187,48460299759169885u},{187,52082988043094784u},{187,81159167898596715u},{187,96920599518339770u},{187,104165976086189568u},{187,112682031138082825u},{187,119927407705932623u},{187,178079767416936485u},{187,193841199036679540u},{187,239854815411865246u},{187,294384486838944209u},{187,356159534833872970u},{187,417934582828801731u},{187,712319069667745940u},{187,929167076892018333u},{187,1002134132381737860u},{187,1002378231243338225u},{187,1207790132111219487u},{187,1424638139335491880u},{187,1641486146559764273u},{187,1858334153784036666u},{187,2415580264222438974u},{187,2632428271446711367u},{187,2849276278670983760u},{187,3716668307568073332u},{187,3933516314792345725u},{187,6132248571790512306u},{187,6349096579014784699u},{187,6565944586239057092u},{187,7433336615136146664u},{187,7650184622360419057u},{187,7867032629584691450u},{187,9662321056889755896u},
{188,793803307459986u},{188,852603552457022u},{188,911403797454058u},{188,2975885588957503u},{188,3093486078951575u},{188,3269886813942683u},{188,3505087793930827u},{188,6186972157903150u},{188,6539773627885366u},{188,7010175587861654u},{188,9221657991857689u},{188,9692059951833977u},{188,10162461911810265u},{188,12373944315806300u},{188,13079547255770732u},{188,16231833579719343u},{188,19384119903667954u},{188,22536406227616565u},{188,26159094511541464u},{188,29311380835490075u},{188,32463667159438686u},{188,38768239807335908u},{188,41920526131284519u},{188,45072812455233130u},{188,64927334318877372u},{188,71231906966774594u},{188,77536479614671816u},{188,83841052262569038u},{188,100018134148893494u},{188,100066953921213567u},{188,100115773693533640u},{188,100262233010493859u},{188,100311052782813932u},{188,142463813933549188u},{188,155072959229343632u},{188,204238861928477949u},{188,284927627867098376u},{188,365616393805718803u},{188,569855255734196752u},{188,786703262958469145u},{188,811921553550058033u},{188,816955447713911796u},{188,922862504244121111u},{188,1139710511468393504u},{188,1356558518692665897u},{188,1573406525916938290u},{188,2279421022936787008u},{188,2713117037385331794u},{188,3146813051833876580u},{188,3363661059058148973u},{188,5426234074770663588u},{188,6293626103667753160u},{188,6727322118116297946u},{188,7922503104931722989u},{188,9657287162725902133u},
{189,102900428744813u},{189,132300551243331u},{189,133595194564768u},{189,205800857489626u},{189,264601102486662u},{189,383496235802171u},{189,501096725796243u},{189,618697215790315u},{189,766992471604342u},{189,795097950781423u},{189,1002193451592486u},{189,1030298930769567u},{189,1058404409946648u},{189,1209288952403549u},{189,1237394431580630u},{189,2032492382362053u},{189,2474788863161260u},{189,4064984764724106u},{189,4507281245523313u},{189,4949577726322520u},{189,5862276167098015u},{189,9014562491046626u},{189,10011577369353364u},{189,10026359741421542u},{189,10030832397537081u},{189,11724552334196030u},{189,18029124982093252u},{189,23449104668392060u},{189,36058249964186504u},{189,50935088622331145u},{189,68079620642825983u},{189,80688765938620427u},{189,93796418673568240u},{189,101870177244662290u},{189,114977829979610103u},{189,136159241285651966u},{189,157340652591693829u},{189,293499893877345795u},{189,314681305183387658u},{189,608181199060733453u},{189,629362610366775316u},{189,803847794978963983u},{189,846210617591047709u},{189,888573440203131435u},{189,1173999575509383180u},{189,1216362398121466906u},{189,1258725220733550632u},{189,1692421235182095418u},{189,2517450441467101264u},{189,2929965044609604187u},{189,4580023457179615879u},{189,5034900882934202528u},{189,5859930089219208374u},{189,7964865927543806715u},
{190,111461536830081u},{190,123739443158063u},{190,142156302650036u},{190,170261781827117u},{190,194817594483081u},{190,247478886316126u},{190,312418084477153u},{190,389635188966162u},{190,417740668143243u},{190,494957772632252u},{190,547619064465297u},{190,624836168954306u},{190,912698440775495u},{190,989915545264504u},{190,1002363093397842u},{190,1002946799381552u},{190,1095238128930594u},{190,1172455233419603u},{190,1249672337908612u},{190,1902613986039999u},{190,1979831090529008u},{190,2344910466839206u},{190,3152286323948611u},{190,3959662181058016u},{190,4689820933678412u},{190,5497196790787817u},{190,6304572647897222u},{190,7111948505006627u},{190,8572266010247419u},{190,9379641867356824u},{190,10187017724466229u},{190,10994393581575634u},{190,11801769438685039u},{190,17144532020494838u},{190,18759283734713648u},{190,20374035448932458u},{190,21988787163151268u},{190,37518567469427296u},{190,40748070897864916u},{190,55470475347031539u},{190,58699978775469159u},{190,61929482203906779u},{190,75037134938854592u},{190,81496141795729832u},{190,96218546244896455u},{190,102677553101771695u},{190,110940950694063078u},{190,117399957550938318u},{190,123858964407813558u},{190,135351865428542561u},{190,177714688040626287u},{190,234799915101876636u},{190,298344149020002225u},{190,355429376081252574u},{190,412514603142502923u},{190,469599830203753272u},{190,710858752162505148u},{190,767943979223755497u},{190,825029206285005846u},{190,882114433346256195u},{190,1535887958447510994u},{190,1592973185508761343u},{190,1650058412570011692u},{190,3128861143956272337u},{190,3185946371017522686u},{190,3243031598078773035u},{190,6314807514973795023u},{190,6371892742035045372u},{190,6428977969096295721u},{190,6486063196157546070u},
{191,100313652185698u},{191,140410654688663u},{191,182539688155099u},{191,203604204888317u},{191,280821309377326u},{191,365079376310198u},{191,407208409776634u},{191,568683581198515u},{191,730158752620396u},{191,814416819553268u},{191,961810066087423u},{191,975891990975149u},{191,17951907877604243u},{191,19243709248979291u},{191,20535510620354339u},{191,21827311991729387u},{191,38487418497958582u},{191,41071021240708678u},{191,59668829804000445u},{191,76974836995917164u},{191,99448049673334075u},{191,101006473688001981u},{191,101252440408750218u},{191,119337659608000890u},{191,176422886669251239u},{191,198896099346668150u},{191,238675319216001780u},{191,295760546277252129u},{191,352845773338502478u},{191,591521092554504258u},{191,648606319615754607u},{191,705691546677004956u},{191,954701276864007120u},{191,1240127412170258865u},{191,1297212639231509214u},{191,1354297866292759563u},{191,2480254824340517730u},{191,2537340051401768079u},{191,2594425278463018428u},{191,3402148477556107555u},{191,5074680102803536158u},{191,5188850556926036856u},{191,6804296955112215110u},{191,8476828580359643713u},
{192,113736716239703u},{192,143215365546534u},{192,150256327990397u},{192,227473432479406u},{192,256952081786237u},{192,454946864958812u},{192,616422036380693u},{192,807375857109405u},{192,909893729917624u},{192,1130326199953167u},{192,1232844072761386u},{192,1614751714218810u},{192,1717269587027029u},{192,2363170272714553u},{192,3332021301245839u},{192,4623822672620887u},{192,5269723358308411u},{192,6664042602491678u},{192,9247645345241774u},{192,10026857352575727u},{192,10067788327707526u},{192,10190962123060366u},{192,10231893098192165u},{192,10272824073323964u},{192,11933765960800089u},{192,19889609934666815u},{192,23867531921600178u},{192,33217695139650171u},{192,39779219869333630u},{192,41173539113516897u},{192,47735063843200356u},{192,72996915008983801u},{192,79558439738667260u},{192,82347078227033794u},{192,88908602956717253u},{192,95470127686400712u},{192,102031652416084171u},{192,145993830017967602u},{192,152555354747651061u},{192,159116879477334520u},{192,190940255372801424u},{192,248025482434051773u},{192,305110709495302122u},{192,496050964868103546u},{192,553136191929353895u},{192,680429695511221511u},{192,794600149633722209u},{192,992101929736207092u},{192,1106272383858707790u},{192,1303774163961192673u},{192,1360859391022443022u},{192,1984203859472414184u},{192,2410046547819900463u},{192,2721718782044886044u},{192,3770905938842343485u},{192,4820093095639800926u},{192,5443437564089772088u},{192,6492624720887229529u},{192,7541811877684686970u},
{193,125837832347408u},{193,158395826538060u},{193,161475171421881u},{193,164554516305702u},{193,322950342843762u},{193,425468215651981u},{193,431626905419623u},{193,645900685687524u},{193,748418558495743u},{193,863253810839246u},{193,965771683647465u},{193,1002723822253317u},{193,1006702658779264u},{193,1015041201788601u},{193,1019020038314548u},{193,1027358581323885u},{193,1291801371375048u},{193,1611672369334989u},{193,1931543367294930u},{193,2046378619638433u},{193,2468767490406593u},{193,2583602742750096u},{193,3223344738669978u},{193,3977921986933363u},{193,6446689477339956u},{193,7201266725603341u},{193,7955843973866726u},{193,8825256474473614u},{193,9350163218049993u},{193,9875069961626372u},{193,10859317714576763u},{193,14402533451206682u},{193,15911687947733452u},{193,21718635429153526u},{193,25261851165783445u},{193,31823375895466904u},{193,43437270858307052u},{193,46980486594936971u},{193,63646751790933808u},{193,70208276520617267u},{193,77294707993877105u},{193,86874541716614104u},{193,93960973189873942u},{193,103540806912610941u},{193,110627238385870779u},{193,127293503581867616u},{193,204588211575744721u},{193,221254476771741558u},{193,237920741967738395u},{193,254587007163735232u},{193,278339703832991907u},{193,311672234224985581u},{193,442508953543483116u},{193,475841483935476790u},{193,623344468449971162u},{193,754181187768468697u},{193,885017907086966232u},{193,1013361224155986606u},{193,1015854626405463767u},{193,1018348028654940928u},{193,1020841430904418089u},{193,1377525656218439859u},{193,1508362375536937394u},{193,1639199094855434929u},{193,2755051312436879718u},{193,3016724751073874788u},{193,3804238469234337159u},{193,4065911907871332229u},{193,6033449502147749576u},{193,6820963220308211947u},{193,8131823815742664458u},{193,8657664095266131759u},{193,9445177813426594130u},{193,9704357849814112039u},
{194,100310469221076u},{194,100746439869415u},{194,108676562575861u},{194,126716661230448u},{194,175114238074906u},{194,193154336729493u},{194,217353125151722u},{194,235393223806309u},{194,368268574804399u},{194,386308673458986u},{194,470786447612618u},{194,621701897265295u},{194,772617346917972u},{194,869412500606888u},{194,941572895225236u},{194,1243403794530590u},{194,1394319244183267u},{194,1545234693835944u},{194,4448708434545981u},{194,5052370233156689u},{194,5656032031767397u},{194,6259693830378105u},{194,7768848326904875u},{194,8897416869091962u},{194,10104740466313378u},{194,11312064063534794u},{194,12519387660756210u},{194,15458941598775421u},{194,20209480932626756u},{194,24960020266478091u},{194,30917883197550842u},{194,38083069725845009u},{194,47584148393547679u},{194,69000952923395851u},{194,95168296787095358u},{194,102333483315389525u},{194,104826885564866686u},{194,111834561983092195u},{194,138001905846791702u},{194,164169249710491209u},{194,328338499420982418u},{194,354505843284681925u},{194,380673187148381432u},{194,813681062024161878u},{194,944517781342659413u},{194,1049187156797457441u},{194,1153856532252255469u},{194,1889035562685318826u},{194,2098374313594914882u},{194,2885888031755377253u},{194,3095226782664973309u},{194,4984262345350292135u},{194,7187306034400005045u},{194,8762333470720929787u},{194,9968524690700584270u},
{195,115805407908028u},{195,124340379453059u},{195,132875350998090u},{195,204065590051913u},{195,248680758906118u},{195,452746348958031u},{195,497361517812236u},{195,905492697916062u},{195,994723035624472u},{195,1162708428367211u},{195,1251938766075621u},{195,1553769665380975u},{195,2246661801700093u},{195,2503877532151242u},{195,3107539330761950u},{195,4057647197532217u},{195,5007755064302484u},{195,6650755067391869u},{195,8550970800932403u},{195,10015510128604968u},{195,10173020238673626u},{195,10293676424404279u},{195,10451186534472937u},{195,16666265195996837u},{195,20466696663077905u},{195,22366912396618439u},{195,29967775330780575u},{195,40933393326155810u},{195,44733824793236878u},{195,70901168656936385u},{195,86974247336996595u},{195,89467649586473756u},{195,91961051835950917u},{195,97939865332371830u},{195,130836719318497535u},{195,141802337313872770u},{195,152767955309248005u},{195,272639056632370305u},{195,283604674627745540u},{195,451574355805317817u},{195,660913106714913873u},{195,765582482169711901u},{195,903148711610635634u},{195,996852469070058427u},{195,1228122455970404953u},{195,1321826213429827746u},{195,1437461206880001009u},{195,1993704938140116854u},{195,2549948669400232699u},{195,2874922413760002018u},{195,3431166145020117863u},{195,3987409876280233708u},{195,4543653607540349553u},{195,5099897338800465398u},{195,6862332290040235726u},{195,7418576021300351571u},{195,7974819752560467416u},{195,8531063483820583261u},{195,9087307215080699106u},{195,9643550946340814951u},
{196,106300280798472u},{196,115223314569313u},{196,124146348340154u},{196,248292696680308u},{196,275061797992831u},{196,310753933076195u},{196,346446068159559u},{196,382138203242923u},{196,621507866152390u},{196,692892136319118u},{196,914415731686903u},{196,985800001853631u},{196,1000541571588833u},{196,1049813487152758u},{196,1243015732304780u},{196,1535923597839293u},{196,1828831463373806u},{196,2486031464609560u},{196,3071847195678586u},{196,3507523601546555u},{196,4093339332615581u},{196,4972062929219120u},{196,5993555066156115u},{196,8186678665231162u},{196,9643847208036126u},{196,9793986533237183u},{196,9944125858438240u},{196,11987110132312230u},{196,14180233731387277u},{196,16373357330462324u},{196,17394849467399319u},{196,19587973066474366u},{196,21781096665549413u},{196,28360467462774554u},{196,30553591061849601u},{196,32746714660924648u},{196,43562193331098826u},{196,45755316930173873u},{196,47948440529248920u},{196,56720934925549108u},{196,58914058524624155u},{196,61107182123699202u},{196,87124386662197652u},{196,91510633860347746u},{196,95896881058497840u},{196,100283128256647934u},{196,104669375454798028u},{196,109055622652948122u},{196,113441869851098216u},{196,117828117049248310u},{196,122214364247398404u},{196,209338750909596056u},{196,218111245305896244u},{196,226883739702196432u},{196,324973744359769319u},{196,342518733152369695u},{196,436222490611792488u},{196,453767479404392864u},{196,983693727475608145u},{196,1018783705060808897u},{196,1059852496142430562u},{196,8677402207657807182u},{196,9122397192665899858u},{196,9567392177673992534u},
{197,124301573230478u},{197,168606292304035u},{197,248603146460956u},{197,337212584608070u},{197,364292135701241u},{197,497206292921912u},{197,701504720309311u},{197,844273260642767u},{197,940253483657482u},{197,994412585843824u},{197,1198711013231223u},{197,1403009440618622u},{197,1607307868006021u},{197,1988825171687648u},{197,2397422026462446u},{197,2806018881237244u},{197,3214615736012042u},{197,3977650343375296u},{197,4794844052924892u},{197,7396564506774737u},{197,7955300686750592u},{197,9589688105849784u},{197,10148424285825639u},{197,11782811704924831u},{197,13417199124024023u},{197,14793129013549474u},{197,19179376211699568u},{197,23565623409849662u},{197,30144994207074803u},{197,38358752423399136u},{197,47131246819699324u},{197,68503746630473939u},{197,94262493639398648u},{197,101358779495771271u},{197,102476251855722981u},{197,103593724215674691u},{197,104711196575626401u},{197,137007493260947878u},{197,145221251477272211u},{197,196738745495121629u},{197,274014986521895756u},{197,282228744738220089u},{197,385263732773918925u},{197,393477490990243258u},{197,786954981980486516u},{197,873562453583536686u},{197,906417486448834018u},{197,939272519314131350u},{197,968383683402911189u},{197,1001238716268208521u},{197,1223736208772254859u},{197,1446233701276301197u},{197,2002477432536417042u},{197,2447472417544509718u},{197,4577626112765598595u},{197,5467616082781783947u},{197,6357606052797969299u},{197,7692591007822247327u},{197,9155252225531197190u},{197,9472570947854618031u},
{198,115688989240285u},{198,134885033843228u},{198,154081078446171u},{198,161964584936399u},{198,250574023083513u},{198,269770067686456u},{198,427792899377741u},{198,612895282162197u},{198,743838562760311u},{198,855585798755482u},{198,1225790564324394u},{198,1337537800319565u},{198,16986252612624521u},{198,17209747084614863u},{198,25758747008924709u},{198,34419494169229726u},{198,42633252385554059u},{198,51517494017849418u},{198,59731252234173751u},{198,77052746554783785u},{198,86607471603050170u},{198,93927251931413135u},{198,95715207707335871u},{198,154105493109567570u},{198,308210986219135140u},{198,333746238756069507u},{198,641957224975204647u},{198,667492477512139014u},{198,864454717479250985u},{198,915525222553119719u},{198,966595727626988453u},{198,1283914449950409294u},{198,1334984955024278028u},{198,1831050445106239438u},{198,2250510177577397747u},{198,3140500147593583099u},{198,3662100890212478876u},{198,4501020355154795494u},{198,5022621097773691271u},{198,6281000295187166198u},{198,6802601037806061975u},{198,7324201780424957752u},{198,9002040710309590988u},{198,9523641452928486765u},
{199,101601221882400u},{199,107222220750085u},{199,116272251240257u},{199,121893250107942u},{199,130943280598114u},{199,155760324068742u},{199,208823442632485u},{199,238165501348199u},{199,267507560063913u},{199,311520648137484u},{199,364583766701227u},{199,423267884132655u},{199,476331002696398u},{199,535015120127826u},{199,617420297407283u},{199,729167533402454u},{199,958283004260481u},{199,1064409241387967u},{199,1070030240255652u},{199,1075651239123337u},{199,1123093358819395u},{199,3263153839330699u},{199,3486648311321041u},{199,3710142783311383u},{199,5062351612988805u},{199,6526307678661398u},{199,6973296622642082u},{199,8437252688314675u},{199,8660747160305017u},{199,9230725338016242u},{199,9554725048266385u},{199,10124703225977610u},{199,13946593245284164u},{199,15410549310956757u},{199,16874505376629350u},{199,17321494320610034u},{199,18785450386282627u},{199,20249406451955220u},{199,29357142556240921u},{199,30821098621913514u},{199,32285054687586107u},{199,36106944706892661u},{199,37570900772565254u},{199,39034856838237847u},{199,60178241178154435u},{199,61642197243827028u},{199,63106153309499621u},{199,72213889413785322u},{199,75141801545130508u},{199,78069713676475694u},{199,97749141950719689u},{199,100677054082064875u},{199,123284394487654056u},{199,150283603090261016u},{199,172890943495850197u},{199,223961448569718931u},{199,246568788975308112u},{199,323174546586111213u},{199,345781886991700394u},{199,470530237545027043u},{199,493137577950616224u},{199,668956433577811607u},{199,691563773983400788u},{199,941060475090054086u},{199,963667815495643267u},{199,1008882496306821629u},{199,1031489836712410810u},{199,1360520207561212395u},{199,1904728290585697353u},{199,2721040415122424790u},{199,3809456581171394706u},{199,5442080830244849580u},{199,7618913162342789412u},{199,9183715390199476743u},{199,9750530813629550882u},
{200,167058754105988u},{200,168182953879525u},{200,169307153653062u},{200,170431353426599u},{200,224618671763879u},{200,336365907759050u},{200,338614307306124u},{200,449237343527758u},{200,563232979070003u},{200,786727451060345u},{200,889481088867220u},{200,898474687055516u},{200,907468285243812u},{200,1012470322597761u},{200,1126465958140006u},{200,1573454902120690u},{200,1687450537662935u},{200,1910945009653277u},{200,2024940645195522u},{200,2138936280737767u},{200,3260905439783625u},{200,3374901075325870u},{200,4049881290391044u},{200,5285846084979147u},{200,6749802150651740u},{200,8099762580782088u},{200,9563718646454681u},{200,10571692169958294u},{200,12035648235630887u},{200,13499604301303480u},{200,16199525161564176u},{200,20135410816412975u},{200,24071296471261774u},{200,33407023846631965u},{200,40270821632825950u},{200,48142592942523548u},{200,55006390728717533u},{200,73677845479457915u},{200,80541643265651900u},{200,103148983671241081u},{200,110012781457435066u},{200,124748350553326649u},{200,147355690958915830u},{200,183690626936892981u},{200,206297967342482162u},{200,272104041512242479u},{200,367381253873785962u},{200,389988594279375143u},{200,448930870662941475u},{200,544208083024484958u},{200,639485295386028441u},{200,875254400920293769u},{200,893013890586696191u},{200,897861741325882950u},{200,902709592065069709u},{200,988291102948239674u},{200,997986804426613192u},{200,1088416166048969916u},{200,1183693378410513399u},{200,1750508801840587538u},{200,2176832332097939832u},{200,2934202180251100937u},{200,3596294816042718559u},{200,4353664664195879664u},{200,5111034512349040769u},{200,5868404360502201874u},{200,7192589632085437118u},{200,7949959480238598223u},{200,8707329328391759328u},{200,9464699176544920433u},
{201,111747235995171u},{201,134546363103620u},{201,157345490212069u},{201,246293599098791u},{201,269092726207240u},{201,291891853315689u},{201,337490107532587u},{201,583783706631378u},{201,606582833739827u},{201,629381960848276u},{201,674980215065174u},{201,1167567413262756u},{201,1213165667479654u},{201,1258763921696552u},{201,1349960430130348u},{201,1418357811455695u},{201,2608724351826900u},{201,2699920860260696u},{201,4027082163282595u},{201,5399841720521392u},{201,6681404769326393u},{201,8054164326565190u},{201,9426923883803987u},{201,10070111373572416u},{201,10156495951274355u},{201,10434897407307600u},{201,10799683441042784u},{201,11990049981413989u},{201,13362809538652786u},{201,14735569095891583u},{201,16108328653130380u},{201,17481088210369177u},{201,18853847767607974u},{201,26725619077305572u},{201,29471138191783166u},{201,32216657306260760u},{201,58942276383566332u},{201,64433314612521520u},{201,87040655018110701u},{201,89786174132588295u},{201,94634024871775054u},{201,95920399851311912u},{201,117884552767132664u},{201,179572348265176590u},{201,274849560626720073u},{201,331046317895808811u},{201,359144696530353180u},{201,510618666160985401u},{201,662092635791617622u},{201,718289393060706360u},{201,869763362691338581u},{201,1021237332321970802u},{201,1172711301952603023u},{201,1324185271583235244u},
{202,107637090482896u},{202,130436217591345u},{202,159593889759143u},{202,169675926748894u},{202,215274180965792u},{202,260872435182690u},{202,283671562291139u},{202,374868070724935u},{202,430548361931584u},{202,521744870365380u},{202,567343124582278u},{202,805416432656519u},{202,1043489740730760u},{202,1099170031937409u},{202,1134686249164556u},{202,1190366540371205u},{202,1610832865313038u},{202,2031299190254871u},{202,2086979481461520u},{202,2269372498329112u},{202,2801199405684243u},{202,3221665730626076u},{202,3642132055567909u},{202,4173958962923040u},{202,6022865136310319u},{202,6443331461252152u},{202,6863797786193985u},{202,8768384250787913u},{202,8879744833201211u},{202,9077489993316448u},{202,9720677483084877u},{202,10561610132968543u},{202,12886662922504304u},{202,15211715712040065u},{202,17536768501575826u},{202,17957234826517659u},{202,25773325845008608u},{202,30423431424080130u},{202,33589416863499557u},{202,35914469653035318u},{202,43730560671526267u},{202,51546651690017216u},{202,59362742708508165u},{202,71828939306070636u},{202,79645030324561585u},{202,87461121343052534u},{202,95277212361543483u},{202,103093303380034432u},{202,143657878612141272u},{202,159290060649123170u},{202,174922242686105068u},{202,279499666205791595u},{202,287315757224282544u},{202,318580121298246340u},{202,438789726854914765u},{202,470054090928878561u},{202,574631514448565088u},{202,726105484079197309u},{202,877579453709829530u},{202,1002636910005684714u},{202,1029053423340461751u},{202,1091582151488389343u},{202,1117998664823166380u},{202,1363265726675689989u},{202,1666213665936954431u},{202,1969161605198218873u},{202,2726531453351379978u},{202,3332427331873908862u},{202,3724320512617877933u},{202,4330216391140406817u},{202,5239060208924200143u},{202,6450851965969257911u},{202,7662643723014315679u},{202,8874435480059373447u},{202,9836112324512720847u},
{203,101278545423547u},{203,104348974073076u},{203,107419402722605u},{203,146876799640445u},{203,149947228289974u},{203,208697948146152u},{203,238073308074241u},{203,299894456579948u},{203,355574747786597u},{203,417395896292304u},{203,476146616148482u},{203,537967764654189u},{203,772970644078901u},{203,834791792584608u},{203,902753798389373u},{203,952293232296964u},{203,1075935529308378u},{203,1372759557238797u},{203,1669583585169216u},{203,2745519114477594u},{203,3042343142408013u},{203,3339167170338432u},{203,5491038228955188u},{203,5787862256885607u},{203,6084686284816026u},{203,6381510312746445u},{203,10982076457910376u},{203,11278900485840795u},{203,11575724513771214u},{203,12169372569632052u},{203,12466196597562471u},{203,12763020625492890u},{203,15929006064912317u},{203,23745097083403266u},{203,24338745139264104u},{203,31858012129824634u},{203,40267751204176421u},{203,47490194166806532u},{203,55899933241158319u},{203,63716024259649268u},{203,87757945370982953u},{203,102202831296243175u},{203,104577423519686527u},{203,111799866482316638u},{203,127432048519298536u},{203,175515890741965906u},{203,223599732964633276u},{203,247641654075966961u},{203,254864097038597072u},{203,351031781483931812u},{203,502505751114564033u},{203,702063562967863624u},{203,709286005930493735u},{203,976121730378607622u},{203,990566616303867844u},{203,1005011502229128066u},{203,2623141325943415127u},{203,3022256949650014309u},{203,4234048706695072077u},{203,5246282651886830254u},{203,6044513899300028618u},{203,7056747844491786795u},{203,7455863468198385977u},{203,8468097413390144154u},{203,9480331358581902331u},
{204,117501439712356u},{204,144686242034262u},{204,324008830252325u},{204,489739017309435u},{204,559011709677037u},{204,821199391423655u},{204,979478034618870u},{204,1118023419354074u},{204,1276302062549289u},{204,2255780097168159u},{204,2552604125098578u},{204,3304530824154631u},{204,4511560194336318u},{204,5105208250197156u},{204,6609061648309262u},{204,7816091018490949u},{204,9023120388672636u},{204,10210416500394312u},{204,10230149758854323u},{204,15632182036981898u},{204,20440566259248635u},{204,24041921111333685u},{204,33658689555867159u},{204,43275458000400633u},{204,48083842222667370u},{204,67317379111734318u},{204,74539822074364429u},{204,96167684445334740u},{204,103390127407964851u},{204,141857201186098747u},{204,180324274964232643u},{204,238024885631433487u},{204,283714402372197494u},{204,360648549928465286u},{204,444805140447363189u},{204,567428804744394988u},{204,858365650079222593u},{204,889610280894726378u},{204,920854911710230163u},{204,952099542525733948u},{204,1134857609488789976u},{204,1166102240304293761u},{204,1411349568898357359u},{204,2300959849793083737u},{204,2822699137796714718u},{204,3589685754394409297u},{204,4633164330401671259u},{204,5645398275593429436u},{204,6167137563597060417u},{204,7179371508788818594u},{204,8191605453980576771u},{204,9266328660803342518u},
{205,129603532100930u},{205,135564767190446u},{205,164239878284731u},{205,195895606923774u},{205,227551335562817u},{205,259207064201860u},{205,328479756569462u},{205,391791213847548u},{205,656959513138924u},{205,783582427695096u},{205,1017094998347429u},{205,1036828256807440u},{205,1123984654443590u},{205,1800677426042525u},{205,2647571311015707u},{205,4088113251849727u},{205,4808384222266737u},{205,8176226503699454u},{205,9130010044768797u},{205,9616768444533474u},{205,10103526844298151u},{205,15865694607634231u},{205,16352453007398908u},{205,19233536889066948u},{205,25482463052167705u},{205,38467073778133896u},{205,76934147556267792u},{205,83183073719368549u},{205,89431999882469306u},{205,2043214668872818625u},{205,2055712521199020139u},{205,3074195392553879073u},{205,4111425042398040278u},{205,5136156839915999969u},{205,6148390785107758146u},{205,8222850084796080556u},{205,9235084029987838733u},{205,9310071143945047817u},{205,9410053962554659929u},
{206,101380846747963u},{206,103682825680744u},{206,112398465444359u},{206,135338554319787u},{206,152769833847017u},{206,207365651361488u},{206,224796930888718u},{206,270677108639574u},{206,360135485208505u},{206,414731302722976u},{206,630812593848079u},{206,720270970417010u},{206,903791681420434u},{206,914317024149321u},{206,953783541069343u},{206,993250057989365u},{206,1351083564265089u},{206,1440541940834020u},{206,2215408728765501u},{206,2881083881668040u},{206,3367842281432717u},{206,5096492610433541u},{206,6735684562865434u},{206,8553793268435189u},{206,10192985220867082u},{206,11832177173298975u},{206,13163527479104053u},{206,13471369125730868u},{206,20385970441734164u},{206,23664354346597950u},{206,26634896604834921u},{206,34523014720367571u},{206,40771940883468328u},{206,62797103277634385u},{206,69046029440735142u},{206,100290660256238927u},{206,100906343549492557u},{206,106539586419339684u},{206,107155269712593314u},{206,112788512582440441u},{206,113404195875694071u},{206,119345280392168013u},{206,396145081448362211u},{206,408642933774563725u},{206,421140786100765239u},{206,609839937580295209u},{206,817285867549127450u},{206,937246831234549093u},{206,954762243137344104u},{206,987238240539355149u},{206,1037229649844161205u},{206,1219679875160590418u},{206,1452121509781825687u},{206,1634571735098254900u},{206,2671801384942416105u},{206,3269143470196509800u},{206,3501585104817745069u},{206,5343602769884832210u},{206,5940944855138925905u},
{207,130109170461618u},{207,144054194083402u},{207,226540058841441u},{207,288108388166804u},{207,349676717492167u},{207,514648447008245u},{207,576216776333608u},{207,637785105658971u},{207,733031717066129u},{207,844591906040401u},{207,906160235365764u},{207,967728564691127u},{207,1029296894016490u},{207,1090865223341853u},{207,1152433552667216u},{207,1214001881992579u},{207,1275570211317942u},{207,1337138540643305u},{207,2304867105334432u},{207,2366435434659795u},{207,2428003763985158u},{207,4671302539994227u},{207,4732870869319590u},{207,4794439198644953u},{207,9281036750663091u},{207,9342605079988454u},{207,9404173409313817u},{207,9465741738639180u},{207,9527310067964543u},{207,9588878397289906u},{207,12559420655526877u},{207,18808346818627634u},{207,18931483477278360u},{207,25118841311053754u},{207,31367767474154511u},{207,50237682622107508u},{207,69230734428711231u},{207,81728586754912745u},{207,92995072494606999u},{207,93980165763812807u},{207,94965259033018615u},{207,99490271975009208u},{207,131966269377020253u},{207,163457173509825490u},{207,207445929968832241u},{207,326914347019650980u},{207,414891859937664482u},{207,534360276988483221u},{207,653828694039301960u},{207,829783719875328964u},{207,949252136926147703u},{207,1068720553976966442u},{207,1188188971027785181u},{207,1307657388078603920u},{207,1427125805129422659u},{207,1779035856801476667u},{207,1898504273852295406u},{207,2017972690903114145u},{207,2256909525004751623u},{207,2376377942055570362u},{207,2495846359106389101u},{207,4035945381806228290u},{207,4274882215907865768u},{207,4513819050009503246u},{207,4752755884111140724u},{207,8071890763612456580u},{207,8549764431815731536u},{207,9027638100019006492u},{207,9505511768222281448u},
{208,102929689401649u},{208,116401002234367u},{208,137555393061576u},{208,205859378803298u},{208,267427708128661u},{208,411718757606596u},{208,473287086931959u},{208,534855416257322u},{208,823437515213192u},{208,885005844538555u},{208,946574173863918u},{208,1008142503189281u},{208,1069710832514644u},{208,1131279161840007u},{208,1831580018402473u},{208,1893148347727836u},{208,1954716677053199u},{208,2462629467645085u},{208,3786296695455672u},{208,7572593390911344u},{208,8773123960071205u},{208,9357971235977436u},{208,9635080570626287u},{208,9850517870580340u},{208,13944656212662827u},{208,15145186781822688u},{208,16345717350982549u},{208,17546247920142410u},{208,21394112944923445u},{208,32691434701965098u},{208,42788225889846890u},{208,54085547646888543u},{208,65382869403930196u},{208,79081252299291571u},{208,85576451779693780u},{208,108171095293777086u},{208,130765738807860392u},{208,261531477615720784u},{208,403594538180622829u},{208,523062955231441568u},{208,597342085254093695u},{208,807189076361245658u},{208,1017036067468397621u},{208,1046125910462883136u},{208,1075215753457368651u},{208,1614378152722491316u},{208,2092251820925766272u},{208,2302098812032918235u},{208,3018909314337830669u},{208,3228756305444982632u},{208,4394350632958684507u},{208,6247665619782813301u},{208,8788701265917369014u},{208,9511729858368034806u},{208,9534601611216766963u},{208,9557473364065499120u},{208,9931423840582338732u},{208,9954295593431070889u},
{209,103877110979781u},{209,103897852053668u},{209,111580930048159u},{209,111601671122046u},{209,161614271844842u},{209,177001168907711u},{209,292434008490059u},{209,354002337815422u},{209,415570667140785u},{209,492525893529017u},{209,708004675630844u},{209,831141334281570u},{209,923483457732671u},{209,954298734006183u},{209,985051787058034u},{209,1323667227810587u},{209,1416009351261688u},{209,1754624792014241u},{209,1970103574116068u},{209,2308719014868621u},{209,3170634143275929u},{209,3509249584028482u},{209,3940207148232136u},{209,4278822588984689u},{209,4617438029737242u},{209,6679883727304411u},{209,7018499168056964u},{209,7357114608809517u},{209,7880414296464272u},{209,8219029737216825u},{209,8557645177969378u},{209,8896260618721931u},{209,9234876059474484u},{209,14036998336113928u},{209,14375613776866481u},{209,17115290355938756u},{209,22933258954835859u},{209,28073996672227856u},{209,28751227553732962u},{209,34230580711877512u},{209,40048549310774615u},{209,45866517909671718u},{209,62643192824857921u},{209,68461161423755024u},{209,74279130022652127u},{209,119468417050818739u},{209,125286385649715842u},{209,131104354248612945u},{209,238936834101637478u},{209,448783825208789441u},{209,460419762406583647u},{209,472055699604377853u},{209,477873668203274956u},{209,687720659310426919u},{209,710992533706015331u},{209,920839524813167294u},{209,955747336406549912u},{209,978619089255282069u},{209,979419332348994579u},{209,1165594327513701875u},{209,1375441318620853838u},{209,1631832058519182625u},{209,1841679049626334588u},{209,2074797915129074963u},{209,2331188655027403750u},{209,3007273377140036463u},{209,3683358099252669176u},{209,4149595830258149926u},{209,5338462032167440213u},{209,6014546754280072926u},{209,6690631476392705639u},{209,8299191660516299852u},{209,9488057862425590139u},
{210,160069359816389u},{210,166228266856314u},{210,172387173896239u},{210,215478782101827u},{210,227796596181677u},{210,320138719632778u},{210,332456533712628u},{210,430957564203654u},{210,664913067425256u},{210,781890819036057u},{210,861915128407308u},{210,911186384726708u},{210,991210694097959u},{210,1200530569159861u},{210,1329826134850512u},{210,1409850444221763u},{210,1643805947443365u},{210,1982421388195918u},{210,2739676579072275u},{210,3287611894886730u},{210,4722097967268193u},{210,5479353158144550u},{210,6575223789773460u},{210,8009709862154923u},{210,9444195934536386u},{210,10878682006917849u},{210,10958706316289100u},{210,16019419724309846u},{210,21837388323206949u},{210,26220870849722589u},{210,32038839448619692u},{210,37856808047516795u},{210,52441741699445178u},{210,87429577602199047u},{210,104883483398890356u},{210,128235382103850019u},{210,151507256499438431u},{210,174859155204398094u},{210,233118865502740375u},{210,326366411703836525u},{210,466237731005480750u},{210,652732823407673050u},{210,792684167018688526u},{210,862579814514825013u},{210,932475462010961500u},{210,1235569999319209613u},{210,1305465646815346100u},{210,1864950924021923000u},{210,2168045461330171113u},{210,2914025830938940313u},{210,4032996385352094113u},{210,4336090922660342226u},{210,5828051661877880626u},{210,8065992770704188226u},{210,8369087308012436339u},{210,8672181845320684452u},
{211,102196374714981u},{211,107123500346921u},{211,112050625978861u},{211,116977751610801u},{211,121904877242741u},{211,214247000693842u},{211,224101251957722u},{211,328761189488673u},{211,547935315814455u},{211,657522378977346u},{211,776963693404117u},{211,976429317202139u},{211,1015846322257659u},{211,1095870631628910u},{211,1315044757954692u},{211,2191741263257820u},{211,2630089515909384u},{211,3187879082987719u},{211,4383482526515640u},{211,5260179031818768u},{211,7571361609503359u},{211,9880163588667528u},{211,9960187898038779u},{211,10520358063637536u},{211,12831540641322127u},{211,15142723219006718u},{211,17453905796691309u},{211,20960691817903821u},{211,25663081282644254u},{211,30285446438013436u},{211,34987835902753869u},{211,46623773100548075u},{211,65273282340767305u},{211,83842767271615284u},{211,88545156736355717u},{211,93247546201096150u},{211,97949935665836583u},{211,130546564681534610u},{211,135248954146275043u},{211,186495092402192300u},{211,261093129363069220u},{211,372990184804384600u},{211,522186258726138440u},{211,745980369608769200u},{211,750682759073509633u},{211,1039670127987536447u},{211,1044372517452276880u},{211,1049074906917017313u},{211,1053777296381757746u},{211,1491960739217538400u},{211,1795055276525786513u},{211,2391839572212801873u},{211,3287016015743324913u},{211,4480584607117355633u},{211,4783679144425603746u},{211,6574032031486649826u},{211,8070695160168928659u},{211,9832833710441532141u},{211,9908071941877379069u},
{212,101703662151787u},{212,105645362657339u},{212,109587063162891u},{212,113528763668443u},{212,117470464173995u},{212,211290725314678u},{212,219174126325782u},{212,227057527336886u},{212,326790339235897u},{212,438348252651564u},{212,542022765056127u},{212,653580678471794u},{212,765138591887461u},{212,957911113934590u},{212,987064119458584u},{212,1307161356943588u},{212,1530277183774922u},{212,1753393010606256u},{212,2088066750853257u},{212,2534298404515925u},{212,3060554367549844u},{212,3506786021212512u},{212,4176133501706514u},{212,5148621118403101u},{212,6041084425728437u},{212,7013572042425024u},{212,8352267003413028u},{212,9324754620109615u},{212,13054656468153461u},{212,18649509240219230u},{212,26109312936306922u},{212,37299018480438460u},{212,52218625872613844u},{212,74598036960876920u},{212,104437251745227688u},{212,109139641209968121u},{212,149196073921753840u},{212,208874503490455376u},{212,298392147843507680u},{212,417749006980910752u},{212,596784295687015360u},{212,661165114720457329u},{212,835498013961821504u},{212,899878832995263473u},{212,973664430958186308u},{212,984521843360591267u},{212,989568721871299854u},{212,1193568591374030720u},{212,1257949410407472689u},{212,1670996027923643008u},{212,1735376846957084977u},{212,2387137182748061440u},{212,2451518001781503409u},{212,3406372874880727985u},{212,3883800311430340273u},{212,4903036003563006818u},{212,6812745749761455970u},{212,7767600622860680546u},{212,8786836314993347091u},{212,9548548730992245760u},{212,9806072007126013636u},
{213,137022856503242u},{213,146720997568609u},{213,232813967896701u},{213,334673740247001u},{213,506859680903185u},{213,628115735384219u},{213,771207252844302u},{213,851231562215553u},{213,931255871586804u},{213,933695052435119u},{213,1013719361806370u},{213,1176207161397187u},{213,1256231470768438u},{213,1418719270359255u},{213,1702463124431106u},{213,1864950924021923u},{213,2027438723612740u},{213,2999926340309327u},{213,3567414048453029u},{213,3729901848043846u},{213,3892389647634663u},{213,7134828096906058u},{213,7297315896496875u},{213,7459803696087692u},{213,7622291495678509u},{213,7784779295269326u},{213,11837217561646491u},{213,11999705361237308u},{213,14919607392175384u},{213,19946972456097451u},{213,29839214784350768u},{213,39893944912194902u},{213,44596334376935335u},{213,59678429568701536u},{213,74435549161286103u},{213,94545009416974371u},{213,97794765408790711u},{213,97947496484988268u},{213,119356859137403072u},{213,154223438985675907u},{213,189090018833948742u},{213,238713718274806144u},{213,308446877971351814u},{213,372827697004793783u},{213,477427436549612288u},{213,681274574976145597u},{213,826093235032340638u},{213,879769372739575205u},{213,954854873099224576u},{213,1158702011525757885u},{213,1362549149952291194u},{213,1909709746198449152u},{213,2113556884624982461u},{213,2317404023051515770u},{213,2928945438331115697u},{213,4838655184529564849u},{213,5042502322956098158u},{213,5246349461382631467u},{213,5857890876662231394u},{213,6061738015088764703u},{213,9677310369059129698u},{213,9881157507485663007u},
{214,100884100010974u},{214,101371936180637u},{214,101859772350300u},{214,141628008951094u},{214,142115845120757u},{214,202743872361274u},{214,283743854071851u},{214,405487744722548u},{214,567487708143702u},{214,648487689854279u},{214,810975489445096u},{214,972487616696587u},{214,973463289035913u},{214,1134975416287404u},{214,1135951088626730u},{214,1459463179299375u},{214,1621950978890192u},{214,2918926358598750u},{214,4054389611055817u},{214,5027365063922067u},{214,5837852717197500u},{214,8919266875387067u},{214,9733657218019804u},{214,9886388294217361u},{214,10054730127844134u},{214,10865217781119567u},{214,17028046097498701u},{214,17838533750774134u},{214,28703751531893701u},{214,35677067501548268u},{214,48813211787581969u},{214,62759843726891103u},{214,76706475666200237u},{214,78327450972751103u},{214,89032132298958505u},{214,97626423575163938u},{214,106220714851369371u},{214,125519687453782206u},{214,134113978729987639u},{214,153412951332400474u},{214,175953874547915041u},{214,231740402305151577u},{214,287526930062388113u},{214,463480804610303154u},{214,723114470794072999u},{214,926961609220606308u},{214,1111509775044726782u},{214,1130808747647139617u},{214,1150107720249552452u},{214,1650076080014679307u},{214,1853923218441212616u},{214,2057770356867745925u},{214,2465464633720812543u},{214,3911693575308958541u},{214,4115540713735491850u},{214,4319387852162025159u},{214,4727082129015091777u},{214,4930929267441625086u},{214,8638775704324050318u},{214,9046469981177116936u},{214,9454164258030183554u},{214,9861858534883250172u},{214,9939054425292901512u},{214,9954743542100100637u},{214,9978846374090543809u},{214,9994535490897742934u},
{215,112619436523347u},{215,113107272693010u},{215,113595108862673u},{215,114082945032336u},{215,129892672438721u},{215,161999963421154u},{215,227190217725346u},{215,259785344877442u},{215,291892635859875u},{215,323999926842308u},{215,454380435450692u},{215,551677980737317u},{215,583785271719750u},{215,615892562702183u},{215,940868161883817u},{215,974926797544902u},{215,982732176259510u},{215,991423331098119u},{215,999228709812727u},{215,1135463252457067u},{215,1167570543439500u},{215,1199677834421933u},{215,1913843614750067u},{215,2335141086879000u},{215,3081414158189567u},{215,4670282173758000u},{215,5416555245068567u},{215,6162828316379134u},{215,7848018204894866u},{215,8465862112275701u},{215,9340564347516000u},{215,9958408254896835u},{215,10833110490137134u},{215,13200358867998567u},{215,14692905010619701u},{215,17806426459791701u},{215,21666220980274268u},{215,30260512256479701u},{215,31753058399100835u},{215,35612852919583402u},{215,403834482332584051u},{215,411554071373549185u},{215,419273660414514319u},{215,619261004320565061u},{215,823108142747098370u},{215,994632982691685659u},{215,997270928602587770u},{215,997770806053125484u},{215,1019235692132666545u},{215,1238522008641130122u},{215,1646216285494196740u},{215,2477044017282260244u},{215,2665451977626863285u},{215,3292432570988393480u},{215,5142495994909123529u},{215,6584865141976786960u},{215,6773273102321390001u},{215,9908176069129040976u},
{216,116757054343950u},{216,148864345326383u},{216,162487799590817u},{216,201406817705467u},{216,233514108687900u},{216,265621399670333u},{216,357082890164067u},{216,467028217375800u},{216,590596998851967u},{216,654811580816833u},{216,805627270821868u},{216,810487653275433u},{216,934056434751600u},{216,1057625216227767u},{216,1181193997703934u},{216,1309623161633666u},{216,1433191943109833u},{216,1868112869503200u},{216,1991681650979367u},{216,3736225739006400u},{216,5105203100151367u},{216,6350611679820167u},{216,7472451478012800u},{216,8594291276205433u},{216,9088566402110101u},{216,10210406200302734u},{216,11332245998495367u},{216,12701223359640334u},{216,16561017880122901u},{216,22664491996990734u},{216,25402446719280668u},{216,29262241239763235u},{216,74591225233744703u},{216,82310814274709837u},{216,90030403315674971u},{216,99727092860258777u},{216,99977031585527634u},{216,117676529631340905u},{216,164621628549419674u},{216,203847138426533309u},{216,329243257098839348u},{216,407694276853066618u},{216,533090395525372657u},{216,658486514197678696u},{216,783882632869984735u},{216,815388553706133236u},{216,877772830706142273u},{216,1066180791050745314u},{216,1316973028395357392u},{216,1567765265739969470u},{216,2132361582101490628u},{216,2633946056790714784u},{216,4076315203858378215u},{216,5267892113581429568u},{216,8152630407716756430u},{216,8341038368061359471u},
{217,154703995967887u},{217,186811286950320u},{217,373622573900640u},{217,621732213343687u},{217,747245147801280u},{217,872758082258873u},{217,1119895645211207u},{217,1123783951174059u},{217,1368977361144967u},{217,1494490295602560u},{217,2365304224880007u},{217,2863467656747527u},{217,2988980591205120u},{217,4856121384217607u},{217,5852448247952647u},{217,5977961182410240u},{217,9712242768435214u},{217,9837755702892807u},{217,9946628269852663u},{217,9947715413498992u},{217,9948802557145321u},{217,11704896495905294u},{217,11830409430362887u},{217,19549998471328021u},{217,19675511405785614u},{217,23409792991810588u},{217,23535305926268181u},{217,39099996942656042u},{217,39225509877113635u},{217,46945098918078769u},{217,47070611852536362u},{217,78325506819769677u},{217,78451019754227270u},{217,93639171967242352u},{217,93764684901699945u},{217,93890197836157538u},{217,94141223705072724u},{217,94266736639530317u},{217,94392249573987910u},{217,156651013639539354u},{217,156776526573996947u},{217,156902039508454540u},{217,250917750279069671u},{217,313553053147993894u},{217,564470803427063565u},{217,627106106295987788u},{217,689992435033827197u},{217,815263040771675643u},{217,940533646509524089u},{217,1003671001116278684u},{217,1065804252247372535u},{217,1128941606854127130u},{217,1254212212591975576u},{217,1630526081543351286u},{217,2069475253363651219u},{217,2822102991266402639u},{217,3261052163086702572u},{217,5644205982532805278u},{217,9971564449604710757u},
{218,100604762864217u},{218,122596704985454u},{218,149449029560256u},{218,175329277644345u},{218,223201467849671u},{218,298898059120512u},{218,372650497409927u},{218,424410993578105u},{218,597796118241024u},{218,723309052698617u},{218,870813929277447u},{218,993901826432836u},{218,994988970079165u},{218,996076113725494u},{218,1070079302024455u},{218,1195592236482048u},{218,1321105170939641u},{218,1867140793012487u},{218,2265671538506503u},{218,2391184472964096u},{218,2516697407421689u},{218,3859794520482567u},{218,4531343077013006u},{218,4656856011470599u},{218,4782368945928192u},{218,7719589040965134u},{218,7845101975422727u},{218,8811660285110826u},{218,8937173219568419u},{218,9062686154026012u},{218,9439224957398791u},{218,9564737891856384u},{218,9690250826313977u},{218,15564691016387861u},{218,15690203950845454u},{218,15815716885303047u},{218,18752936980339989u},{218,18878449914797582u},{218,31254894967233315u},{218,31380407901690908u},{218,31505920836148501u},{218,37505873960679978u},{218,37756899829595164u},{218,50133344882030897u},{218,62760815803381816u},{218,87639218842710875u},{218,100266689764061794u},{218,112894160685412713u},{218,125521631606763632u},{218,200533379528123588u},{218,213160850449474507u},{218,225788321370825426u},{218,238415792292176345u},{218,288423624239749649u},{218,313678566082451487u},{218,426321700898949014u},{218,451576642741650852u},{218,576847248479499298u},{218,740000266981400501u},{218,903153285483301704u},{218,1000156638951466080u},{218,1004173052854109056u},{218,1008189466756752032u},{218,1011780006397156255u},{218,1015796420299799231u},{218,1316847515460899799u},{218,1480000533962801002u},{218,1643153552464702205u},{218,1806306570966603408u},{218,2245255742786903341u},{218,2960001067925602004u},{218,3286307104929404410u},{218,4001052430068103073u},{218,5205256810712505345u},{218,7287359534997507483u},{218,8266277646008914701u},{218,8390544148271102403u},{218,8981022971147613364u},{218,9695768296286312027u},
{219,140263422115476u},{219,169764397431242u},{219,214015860404891u},{219,273017811036423u},{219,339528794862484u},{219,428031720809782u},{219,553544655267375u},{219,671548556530439u},{219,856063441619564u},{219,871081508008622u},{219,981576376077157u},{219,1468610047518471u},{219,1837639817696721u},{219,1963152752154314u},{219,3062733029494535u},{219,3675279635393442u},{219,3800792569851035u},{219,6250978993446663u},{219,7350559270786884u},{219,7601585139702070u},{219,9926258628840105u},{219,10177284497755291u},{219,12501957986893326u},{219,17527843768542175u},{219,22679242484648617u},{219,25003915973786652u},{219,32731014047946315u},{219,35055687537084350u},{219,47683158458435269u},{219,67786701585030665u},{219,70111375074168700u},{219,95366316916870538u},{219,100015663895146608u},{219,100332130432963155u},{219,101707404308651549u},{219,135573403170061330u},{219,137898076659199365u},{219,190732633833741076u},{219,193057307322879111u},{219,218312249165580949u},{219,328630710492940441u},{219,436624498331161898u},{219,604426863811339171u},{219,657261420985880882u},{219,873248996662323796u},{219,935382247793417647u},{219,1041051362142501069u},{219,1314522841971761764u},{219,1587994321801022459u},{219,2082102724285002138u},{219,2629045683943523528u},{219,4164205448570004276u},{219,5972836693025745719u},{219,7613665572001309889u},{219,8328410897140008552u},{219,9043156222278707215u},
{220,110708931053475u},{220,132807904667182u},{220,154906878280889u},{220,221417862106950u},{220,243516835720657u},{220,442835724213900u},{220,612546605898907u},{220,760158513970207u},{220,885671448427800u},{220,1011184382885393u},{220,1099580277340221u},{220,1136697317342986u},{220,1225093211797814u},{220,1520317027940414u},{220,1985251725768021u},{220,2450186423595628u},{220,2575699358053221u},{220,3040634055880828u},{220,3505568753708435u},{220,3970503451536042u},{220,4435438149363649u},{220,5616333413934049u},{220,6081268111761656u},{220,6546202809589263u},{220,7011137507416870u},{220,7476072205244477u},{220,7941006903072084u},{220,10023447934399102u},{220,10042978152193529u},{220,10117212232199059u},{220,12627470921350919u},{220,13092405619178526u},{220,13557340317006133u},{220,14022275014833740u},{220,14487209712661347u},{220,14952144410488954u},{220,26184811238357052u},{220,26649745936184659u},{220,27114680634012266u},{220,27579615331839873u},{220,28044550029667480u},{220,28509484727495087u},{220,54229361268024532u},{220,55159230663679746u},{220,56089100059334960u},{220,108458722536049064u},{220,110318461327359492u},{220,112178200118669920u},{220,275331218620571123u},{220,382860071760964973u},{220,492248663692669251u},{220,601637255624373529u},{220,765720143521929946u},{220,824133917070402941u},{220,984497327385338502u},{220,1042911100933811497u},{220,1203274511248747058u},{220,1261688284797220053u},{220,1371076876728924331u},{220,1808631244455741443u},{220,2246185612182558555u},{220,3617262488911482886u},{220,4492371224365117110u},{220,6082225284957449997u},{220,8984742448730234220u},
{221,103413960843886u},{221,110837368844439u},{221,125341684069641u},{221,169710881685007u},{221,177134289685560u},{221,184557697686113u},{221,339421763370014u},{221,346845171370567u},{221,354268579371120u},{221,361691987371673u},{221,693690342741134u},{221,701113750741687u},{221,708537158742240u},{221,1002733472557128u},{221,1005473478764360u},{221,1010156880557681u},{221,1012896886764913u},{221,1402227501483374u},{221,1867162199310981u},{221,1882009015312087u},{221,2339520305139141u},{221,2804455002966748u},{221,3269389700794355u},{221,3734324398621962u},{221,4214105912450675u},{221,4679040610278282u},{221,5143975308105889u},{221,5608910005933496u},{221,6073844703761103u},{221,6538779401588710u},{221,8428211824901350u},{221,8833759258724533u},{221,9358081220556564u},{221,10287950616211778u},{221,11217820011866992u},{221,12147689407522206u},{221,13077558803177420u},{221,20575901232423556u},{221,22435640023733984u},{221,32258655942118155u},{221,33188525337773369u},{221,44871280047467968u},{221,52834557174541711u},{221,56554034757162567u},{221,64517311884236310u},{221,66377050675546738u},{221,78059805385241337u},{221,89742560094935936u},{221,101425314804630535u},{221,105669114349083422u},{221,113108069514325134u},{221,117351869058778021u},{221,124790824224019733u},{221,129034623768472620u},{221,132754101351093476u},{221,144436856060788075u},{221,425871613017122513u},{221,449237122436511711u},{221,472602631855900909u},{221,668014306299920267u},{221,898474244873023422u},{221,1035472145768569785u},{221,1038667301389358610u},{221,1105568674026737379u},{221,1336028612599840534u},{221,1566488551172943689u},{221,2027408428319149999u},{221,2672057225199681068u},{221,3132977102345887378u},{221,3593896979492093688u},{221,4054816856638299998u},{221,4746196672357609463u},{221,6265954204691774756u},{221,7187793958984187376u},{221,8109633713276599996u},{221,8894475566673466253u},{221,9492393344715218926u},
{222,100547347876436u},{222,101210027614377u},{222,134284023747895u},{222,141707431748448u},{222,149130839749001u},{222,283414863496896u},{222,370463076661975u},{222,566829726993792u},{222,653877940158871u},{222,740926153323950u},{222,842821182490135u},{222,900175763653002u},{222,959563027657426u},{222,1307755880317742u},{222,1598594151815191u},{222,1685642364980270u},{222,2615511760635484u},{222,2906350032132933u},{222,3371284729960540u},{222,5231023521270968u},{222,6451731188423631u},{222,6742569459921080u},{222,7381600584078845u},{222,9823015918384171u},{222,10462047042541936u},{222,12264431252689497u},{222,12903462376847262u},{222,14124170043999925u},{222,14763201168157690u},{222,20285062960926107u},{222,25806924753694524u},{222,28887371212157615u},{222,39931094797694449u},{222,40570125921852214u},{222,51613849507389048u},{222,57774742424315230u},{222,80501220719546663u},{222,100032543393989271u},{222,100671574518147036u},{222,101310605642304801u},{222,103866730138935861u},{222,114910453724472695u},{222,115549484848630460u},{222,161002441439093326u},{222,161641472563251091u},{222,207094429153713957u},{222,207733460277871722u},{222,507011864860826941u},{222,599195840290068203u},{222,691379815719309465u},{222,874469704329476459u},{222,969209804255348781u},{222,1014023729721653882u},{222,1198391680580136406u},{222,2994701139202025485u},{222,3547804991777473057u},{222,4285276795211403153u},{222,5022748598645333249u},{222,7095609983554946114u},{222,8570553590422806306u},{222,9537207270181524027u},
{223,101895029166185u},{223,107427218998316u},{223,142653040832659u},{223,148185230664790u},{223,153717420496921u},{223,168564236498027u},{223,250080259830975u},{223,296370461329580u},{223,337128472996054u},{223,464934697827607u},{223,592740922659160u},{223,674256945992108u},{223,802063170823661u},{223,929869395655214u},{223,1057675620486767u},{223,1185481845318320u},{223,1348513891984216u},{223,1476320116815769u},{223,1604126341647322u},{223,1731932566478875u},{223,2697027783968432u},{223,2824834008799985u},{223,2952640233631538u},{223,3080446458463091u},{223,5521861792768417u},{223,5649668017599970u},{223,5777474242431523u},{223,5905280467263076u},{223,6033086692094629u},{223,10122885886704325u},{223,10250692111535878u},{223,10378498336367431u},{223,11299336035199940u},{223,11427142260031493u},{223,11554948484863046u},{223,11682754709694599u},{223,11810560934526152u},{223,22726478295231433u},{223,22854284520062986u},{223,22982090744894539u},{223,23109896969726092u},{223,23237703194557645u},{223,45964181489789078u},{223,46219793939452184u},{223,89883463382273308u},{223,90394688281599520u},{223,90905913180925732u},{223,92439587878904368u},{223,92950812778230580u},{223,93462037677556792u},{223,137764738244535681u},{223,138275963143861893u},{223,138787188043188105u},{223,276551926287723786u},{223,322388301552681311u},{223,553103852575447572u},{223,598940227840405097u},{223,644776603105362622u},{223,1060371329885937619u},{223,1106207705150895144u},{223,1152044080415852669u},{223,1197880455680810194u},{223,1243716830945767719u},{223,1289553206210725244u},{223,1520779982132817717u},{223,1612452732662732767u},{223,2304088160831705338u},{223,2395760911361620388u},
{224,100032103932390u},{224,101838443296931u},{224,116741845167291u},{224,118548184531832u},{224,146322305430995u},{224,200064207864780u},{224,237096369063664u},{224,346386513295775u},{224,400128415729560u},{224,474192738127328u},{224,564966801759997u},{224,692773026591550u},{224,820579251423103u},{224,948385476254656u},{224,1009352736146605u},{224,1015224441194260u},{224,1035546861158243u},{224,1129933603519994u},{224,1257739828351547u},{224,1385546053183100u},{224,1513352278014653u},{224,2132060982208435u},{224,2259867207039988u},{224,2387673431871541u},{224,2515479656703094u},{224,2643285881534647u},{224,4264121964416870u},{224,4391928189248423u},{224,4519734414079976u},{224,4647540638911529u},{224,4775346863743082u},{224,4903153088574635u},{224,8528243928833740u},{224,8783856378496846u},{224,9039468828159952u},{224,9295081277823058u},{224,9550693727486164u},{224,9806306177149270u},{224,18078937656319904u},{224,18590162555646116u},{224,27246212709311409u},{224,27757437608637621u},{224,37180325111292232u},{224,46347600164283737u},{224,55514875217275242u},{224,74360650222584464u},{224,83527925275575969u},{224,92695200328567474u},{224,101862475381558979u},{224,111029750434550484u},{224,120197025487541989u},{224,691635428168972571u},{224,728304528380938591u},{224,764973628592904611u},{224,801642728804870631u},{224,838311829016836651u},{224,874980929228802671u},{224,1021657330076666751u},{224,1034914404324267952u},{224,1058326430288632771u},{224,1529947257185809222u},{224,1603285457609741262u},{224,2276586335672730823u},{224,2423262736520594903u},{224,3059894514371618444u},{224,3206570915219482524u},{224,3843202693070506065u},{224,3989879093918370145u},{224,8909742767383491991u},{224,9106345342690923292u},{224,9693050946082379612u},{224,9889653521389810913u},
{225,100348103109895u},{225,101522444119426u},{225,102696785128957u},{225,103871126138488u},{225,117057844344796u},{225,138554605318310u},{225,160051366291824u},{225,181548127265338u},{225,277109210636620u},{225,320102732583648u},{225,404915435468173u},{225,426412196441687u},{225,554218421273240u},{225,682024646104793u},{225,809830870936346u},{225,852824392883374u},{225,980630617714927u},{225,1108436842546480u},{225,1236243067378033u},{225,1705648785766748u},{225,1961261235429854u},{225,2216873685092960u},{225,3283491346701943u},{225,3411297571533496u},{225,3922522470859708u},{225,5244752582131797u},{225,5755977481458009u},{225,6822595143066992u},{225,7845044941719416u},{225,8656050153665293u},{225,9678499952317717u},{225,10489505164263594u},{225,11511954962916018u},{225,12322960174861895u},{225,56837105328547331u},{225,60504015349743933u},{225,64170925370940535u},{225,100840025582906555u},{225,104506935604103157u},{225,709969978274955581u},{225,739305258444528397u},{225,768640538614101213u},{225,797975818783674029u},{225,827311098953246845u},{225,871314019207606069u},{225,929984579546751701u},{225,988655139885897333u},{225,1537281077228202426u},{225,1595951637567348058u},{225,2291253975757517231u},{225,2408595096435808495u},{225,3074562154456404852u},{225,3191903275134696116u},{225,3916540893494438105u},{225,5483157250892213347u},{225,6932432487611697325u},{225,7833081786988876210u},{225,8733731086366055095u},
{226,110843684254648u},{226,136874665624771u},{226,144768765408458u},{226,221687368509296u},{226,281643431033229u},{226,443374737018592u},{226,503330799542525u},{226,826793411513251u},{226,886749474037184u},{226,946705536561117u},{226,1006661599085050u},{226,1773498948074368u},{226,1893411073122234u},{226,2464592034972379u},{226,3095729059346457u},{226,4238090983046747u},{226,4929184069944758u},{226,10309636976691795u},{226,12834185074188107u},{226,16501095095384709u},{226,20168005116581311u},{226,25668370148376214u},{226,33002190190769418u},{226,40336010233162622u},{226,51336740296752428u},{226,85692736997928683u},{226,94437122877507094u},{226,98555301735505975u},{226,102673480593504856u},{226,106791659451503737u},{226,136126939621076553u},{226,165462219790649369u},{226,209465140045008593u},{226,272253879242153106u},{226,330924439581298738u},{226,481719019287161699u},{226,661848879162597476u},{226,783308178698887621u},{226,963438038574323398u},{226,1143567898449759175u},{226,1323697758325194952u},{226,1386486497522339465u},{226,1566616357397775242u},{226,1746746217273211019u},{226,1926876077148646796u},{226,2772972995044678930u},{226,2953102854920114707u},{226,3133232714795550484u},{226,3313362574670986261u},{226,3493492434546422038u},{226,5545945990089357860u},{226,5726075849964793637u},{226,5906205709840229414u},{226,6446595289466536745u},{226,6626725149341972522u},{226,6806855009217408299u},
{227,100666159908505u},{227,106342092586342u},{227,122130292153716u},{227,127806224831553u},{227,141376257293077u},{227,147052189970914u},{227,201332319817010u},{227,255612449663106u},{227,261288382340943u},{227,282752514586154u},{227,288428447263991u},{227,396988706956183u},{227,402664639634020u},{227,511224899326212u},{227,516900832004049u},{227,571180961850145u},{227,576856894527982u},{227,799653346590203u},{227,805329279268040u},{227,1005422000618913u},{227,1011097933296750u},{227,1016773865974587u},{227,1033801664008098u},{227,1039477596685935u},{227,1045153529363772u},{227,1142361923700290u},{227,1148037856378127u},{227,1604982625858243u},{227,2061927395338359u},{227,2296075712756254u},{227,2747344549558533u},{227,3209965251716486u},{227,4123854790676718u},{227,5957309801275019u},{227,6419930503432972u},{227,8247709581353436u},{227,8721682148867063u},{227,9184302851025016u},{227,11914619602550038u},{227,12377240304707991u},{227,16958039864864825u},{227,19711060347101195u},{227,23829239205100076u},{227,24754480609415982u},{227,28872659467414863u},{227,33916079729729650u},{227,43540299552201271u},{227,53627140076830845u},{227,63713980601460419u},{227,67832159459459300u},{227,72875579721774087u},{227,87080599104402542u},{227,93049260771033235u},{227,107254280153661690u},{227,121459299536290145u},{227,145751159443548174u},{227,214508560307323380u},{227,228713579689951835u},{227,242918599072580290u},{227,277297299504467893u},{227,291502318887096348u},{227,443222139997275215u},{227,457427159379903670u},{227,471632178762532125u},{227,554594599008935786u},{227,734724458884371563u},{227,914854318759807340u},{227,1038164101104729297u},{227,1066574139869986207u},{227,1109189198017871572u},{227,1289319057893307349u},{227,1469448917768743126u},{227,1649578777644178903u},{227,2218378396035743144u},{227,2578638115786614698u},{227,2938897835537486252u},{227,3299157555288357806u},{227,4256626932196050511u},{227,4436756792071486288u},{227,5157276231573229396u},{227,6835265047982665209u},{227,7555784487484408317u},{227,8276303926986151425u},{227,8873513584142972576u},
{228,101109793329675u},{228,103236658638152u},{228,104658860699035u},{228,114236192370029u},{228,161065855853608u},{228,207895519337187u},{228,228472384740058u},{228,322131711707216u},{228,410115105996537u},{228,415791038674374u},{228,456944769480116u},{228,644263423414432u},{228,732246817703753u},{228,913889538960232u},{228,1376510241118185u},{228,1464493635407506u},{228,2290399780078417u},{228,2753020482236370u},{228,3391607972972965u},{228,3942212069420239u},{228,4580799560156834u},{228,6144628455209335u},{228,6783215945945930u},{228,7884424138840478u},{228,9161599120313668u},{228,9448253033892979u},{228,10725428015366169u},{228,12002602996839359u},{228,12289256910418670u},{228,13566431891891860u},{228,15768848277680956u},{228,18609852154206647u},{228,21450856030732338u},{228,24291859907258029u},{228,27132863783783720u},{228,34378700431887603u},{228,37219704308413294u},{228,40060708184938985u},{228,48583719814516058u},{228,51424723691041749u},{228,54265727567567440u},{228,80121416369877970u},{228,82962420246403661u},{228,85803424122929352u},{228,94326435752506425u},{228,97167439629032116u},{228,100008443505557807u},{228,102849447382083498u},{228,105690451258609189u},{228,171606848245858704u},{228,177288855998910086u},{228,182970863751961468u},{228,188652871505012850u},{228,194334879258064232u},{228,354577711997820172u},{228,365941727503922936u},{228,377305743010025700u},{228,540389579626307331u},{228,563117610638512859u},{228,731883455007845872u},{228,889285283871076121u},{228,934741345895487177u},{228,980197407919898233u},{228,989867035203792550u},{228,1463766910015691744u},{228,1655260785397230285u},{228,2015520505148101839u},{228,2398508255911178921u},{228,3310521570794460570u},{228,3502015446175999111u},{228,4797016511822357842u},{228,6092017577468716573u},{228,6621043141588921140u},{228,7004030892351998222u},{228,8299031957998356953u},{228,9594033023644715684u},
{229,235567944365639u},{229,275302048223637u},{229,422886598299955u},{229,550604096447274u},{229,678321594594593u},{229,718055698452591u},{229,845773196599910u},{229,973490694747229u},{229,1101208192894548u},{229,1228925691041867u},{229,1356643189189186u},{229,2202416385789096u},{229,2457851382083734u},{229,2713286378378372u},{229,3096438872820329u},{229,4915702764167468u},{229,5426572756756744u},{229,8012141636987797u},{229,10055621607344901u},{229,10628929434503523u},{229,10853145513513488u},{229,13183279397449903u},{229,16024283273975594u},{229,18865287150501285u},{229,21706291027026976u},{229,26366558794899806u},{229,32048566547951188u},{229,37730574301002570u},{229,43412582054053952u},{229,46253585930579643u},{229,64097133095902376u},{229,75461148602005140u},{229,92507171861159286u},{229,98986703520379255u},{229,121714734532584783u},{229,150922297204010280u},{229,301844594408020560u},{229,331052157079446057u},{229,632896751487466617u},{229,662104314158892114u},{229,691311876830317611u},{229,795183064197579661u},{229,853598189540430655u},{229,912013314883281649u},{229,1265793502974933234u},{229,1324208628317784228u},{229,1382623753660635222u},{229,2177806817858214883u},{229,2648417256635568456u},{229,3060612570070071035u},{229,4355613635716429766u},{229,5296834513271136912u},{229,5767444952048490485u},{229,6121225140140142070u},{229,8357447083341207947u},{229,8711227271432859532u},
{230,126014460832654u},{230,129420535461984u},{230,169154639319982u},{230,213997855121975u},{230,252028921665308u},{230,293466062837971u},{230,338309278639964u},{230,383152494441957u},{230,427995710243950u},{230,676618557279928u},{230,721461773081921u},{230,766304988883914u},{230,1008115686661232u},{230,1052958902463225u},{230,1353237114559856u},{230,1398080330361849u},{230,1442923546163842u},{230,1487766761965835u},{230,2796160660723698u},{230,2885847092327684u},{230,3773057430100257u},{230,5592321321447396u},{230,6569218090823955u},{230,7546114860200514u},{230,8523011629577073u},{230,9230849104141674u},{230,9589594830557618u},{230,13138436181647910u},{230,14115332951024469u},{230,15092229720401028u},{230,16069126489777587u},{230,17046023259154146u},{230,19797340704075851u},{230,21751134242828969u},{230,28230665902048938u},{230,30184459440802056u},{230,32138252979555174u},{230,39594681408151702u},{230,48028006606124789u},{230,51935593683631025u},{230,60368918881604112u},{230,68802244079577199u},{230,79189362816303404u},{230,91530275091782727u},{230,96056013212249578u},{230,108396925487728901u},{230,120737837763208224u},{230,158378725632606808u},{230,170719637908086131u},{230,229134763250937125u},{230,241475675526416448u},{230,341439275816172262u},{230,412195313434502579u},{230,482951351052832896u},{230,612122514014014207u},{230,682878551632344524u},{230,753634589250674841u},{230,1036658739723996109u},{230,1058051128240409134u},{230,1107414777342326426u},{230,1153488990409698097u},{230,1224245028028028414u},{230,1295001065646358731u},{230,1365757103264689048u},{230,2306977980819396194u},{230,2377734018437726511u},{230,2448490056056056828u},{230,2519246093674387145u},{230,2590002131292717462u},{230,4613955961638792388u},{230,4755468036875453022u},{230,4896980112112113656u},{230,5038492187348774290u},{230,9227911923277584776u},{230,9510936073750906044u},{230,9793960224224227312u},
{231,126355068295587u},{231,171198284097580u},{231,210591780492645u},{231,252710136591174u},{231,297553352393167u},{231,342396568195160u},{231,421183560985290u},{231,595106704786334u},{231,718736913378457u},{231,808423344982443u},{231,887210337772573u},{231,942952992388422u},{231,955097891748847u},{231,998695647004271u},{231,1190213409572668u},{231,1313843618164791u},{231,1740476898557009u},{231,2504057027737459u},{231,2627687236329582u},{231,5131744264067041u},{231,5255374472659164u},{231,10263488528134082u},{231,10387118736726205u},{231,10510748945318328u},{231,10634379153910451u},{231,16743020187354051u},{231,20774237473452410u},{231,25052715176735015u},{231,29207562671425497u},{231,41548474946904820u},{231,45826952650187425u},{231,87375427597092245u},{231,91653905300374850u},{231,100210860706940060u},{231,104489338410222665u},{231,179029332897467095u},{231,183307810600749700u},{231,287302628176603873u},{231,358058665794934190u},{231,428814703413264507u},{231,503849218734877429u},{231,574605256353207746u},{231,645361293971538063u},{231,919828489038294121u},{231,954056310664554961u},{231,1007698437469754858u},{231,1149210512706415492u},{231,2015396874939509716u},{231,2952339274790934257u},{231,4030793749879019432u},{231,4684711999257122705u},{231,5904678549581868514u},{231,8061587499758038864u},{231,8715505749136142137u},{231,9369423998514245410u},
{232,107872810034097u},{232,136958627278064u},{232,168473424394116u},{232,213316640196109u},{232,273917254556128u},{232,336946848788232u},{232,550263488984341u},{232,671464717704379u},{232,734494311936483u},{232,976896769376559u},{232,1100526977968682u},{232,1342929435408758u},{232,2077423747345241u},{232,3299151954033961u},{232,4154847494690482u},{232,5010543035347003u},{232,5742608367411401u},{232,6598303908067922u},{232,7453999448724443u},{232,9165390530037485u},{232,10021086070694006u},{232,10876781611350527u},{232,14907998897448886u},{232,15763694438105407u},{232,16619389978761928u},{232,18330781060074970u},{232,19186476600731491u},{232,20042172141388012u},{232,33238779957523856u},{232,34094475498180377u},{232,34950171038836898u},{232,36661562120149940u},{232,37517257660806461u},{232,38372953201462982u},{232,69900342077673796u},{232,71611733158986838u},{232,73323124240299880u},{232,75034515321612922u},{232,89581339512773779u},{232,93004121675399863u},{232,96426903838025947u},{232,143223466317973676u},{232,146646248480599760u},{232,219113677180243119u},{232,286446932635947352u},{232,572893865271894704u},{232,647072685052851105u},{232,728097069159059674u},{232,788584760289511739u},{232,876454708720972476u},{232,936942399851424541u},{232,997430090981876606u},{232,1085300039413337343u},{232,1145787730543789408u},{232,1294145370105702210u},{232,1873884799702849082u},{232,2231087769957126751u},{232,3747769599405698164u},{232,4104972569659975833u},{232,4462175539914253502u},{232,7495539198811396328u},{232,7852742169065673997u},{232,8209945139319951666u},{232,8567148109574229335u},{232,8924351079828507004u},
{233,242888253414493u},{233,243859845363327u},{233,244831437312161u},{233,245803029260995u},{233,366032666032199u},{233,367975849929867u},{233,487719690726654u},{233,489662874624322u},{233,610378307369943u},{233,732065332064398u},{233,853752356758853u},{233,1093240038352427u},{233,1097126406147763u},{233,1101012773943099u},{233,1104899141738435u},{233,1220756614739886u},{233,1589704056618587u},{233,1833078106007497u},{233,2076452155396407u},{233,2810460671358473u},{233,3666156212014994u},{233,4765225802060425u},{233,5620921342716946u},{233,6476616883373467u},{233,7332312424029988u},{233,8188007964686509u},{233,9177049633423493u},{233,9294850290322612u},{233,9412650947221731u},{233,9530451604120850u},{233,9648252261019969u},{233,9766052917919088u},{233,11241842685433892u},{233,12953233766746934u},{233,14664624848059976u},{233,16376015929373018u},{233,25906467533493868u},{233,29329249696119952u},{233,32752031858746036u},{233,39715396840897323u},{233,46560961166149491u},{233,58658499392239904u},{233,70756037618330317u},{233,79430793681794646u},{233,81024384106208569u},{233,91528331907885059u},{233,93121922332298982u},{233,105219460558389395u},{233,117316998784479808u},{233,129414537010570221u},{233,141512075236660634u},{233,234633997568959616u},{233,246731535795050029u},{233,258829074021140442u},{233,270926612247230855u},{233,283024150473321268u},{233,493463071590100058u},{233,505560609816190471u},{233,517658148042280884u},{233,529755686268371297u},{233,678113325830284099u},{233,702308402282464925u},{233,1011121219632380942u},{233,1035316296084561768u},{233,1059511372536742594u},{233,1356226651660568198u},{233,1713429621914845867u},{233,2070632592169123536u},{233,2712453303321136396u},{233,3069656273575414065u},{233,3426859243829691734u},{233,3784062214083969403u},{233,6139312547150828130u},{233,6496515517405105799u},{233,6853718487659383468u},{233,9257358973630603847u},{233,9421001332267434908u},{233,9971764914139159185u},
{234,100264395602066u},{234,102207579499734u},{234,147967613531014u},{234,172305018469905u},{234,196642423408796u},{234,267711454327801u},{234,316386264205583u},{234,612321491267611u},{234,709671111023175u},{234,807020730778739u},{234,912143086124975u},{234,953045160412085u},{234,993947234699195u},{234,1147744399923213u},{234,1614041461557478u},{234,1906090320824170u},{234,2567086621969563u},{234,2956485100991819u},{234,3812180641648340u},{234,4862575421815989u},{234,6184568024106775u},{234,7624361283296680u},{234,8674756063464329u},{234,9725150843631978u},{234,11318741268045901u},{234,12369136048213550u},{234,13419530828381199u},{234,21043892111677879u},{234,23144681672013177u},{234,29990245997265345u},{234,34191825117935941u},{234,42087784223355758u},{234,54185322449446171u},{234,84175568446711516u},{234,96273106672801929u},{234,104676264914143121u},{234,108370644898892342u},{234,112065024883641563u},{234,116266604004312159u},{234,140461680456492985u},{234,192546213345603858u},{234,216741289797784684u},{234,280923360912985970u},{234,333007893802096843u},{234,561846721825971940u},{234,613931254715082813u},{234,666015787604193686u},{234,930132832034497272u},{234,974828604954109703u},{234,1227862509430165626u},{234,1585065479684443295u},{234,1689234545462665041u},{234,1994352982827831837u},{234,2455725018860331252u},{234,3631502995401386005u},{234,3988705965655663674u},{234,4911450037720662504u},{234,6087228014261717257u},{234,7263005990802772010u},{234,7724378026835271425u},{234,7977411931311327348u},{234,9822900075441325008u},
{235,137844014775924u},{235,141934222204635u},{235,146024429633346u},{235,190609032082417u},{235,283868444409270u},{235,381218064164834u},{235,567736888818540u},{235,669176716002815u},{235,762436128329668u},{235,863875955513943u},{235,1135473777637080u},{235,1236913604821355u},{235,1338353432005630u},{235,1524872256659336u},{235,2473827209642710u},{235,2575267036826985u},{235,2948304686134397u},{235,3049744513318672u},{235,4947654419285420u},{235,5049094246469695u},{235,5896609372268794u},{235,5998049199453069u},{235,6099489026637344u},{235,9895308838570840u},{235,10098188492939390u},{235,10199628320123665u},{235,10301068147307940u},{235,11996098398906138u},{235,16096237692392459u},{235,19993497331510230u},{235,23992196797812276u},{235,28092336091298597u},{235,44087133956506781u},{235,56184672182597194u},{235,76279609341291699u},{235,93085925823974083u},{235,95968787191249104u},{235,97591824426197504u},{235,112369344365194388u},{235,152559218682583398u},{235,164453877254305261u},{235,224738688730388776u},{235,317013095936888659u},{235,449477377460777552u},{235,541751784667277435u},{235,634026191873777318u},{235,830469664858498947u},{235,898954754921555104u},{235,1083503569334554870u},{235,1268052383747554636u},{235,1452601198160554402u},{235,1544875605367054285u},{235,1913973234193053817u},{235,2905202396321108804u},{235,3089751210734108570u},{235,4819175630514162621u},{235,5810404792642217608u},{235,6179502421468217140u},{235,7908926841248271191u},{235,9638351261028325242u},{235,9891385165504381165u},
{236,113547377763708u},{236,133835343200563u},{236,186518824653706u},{236,206806790090561u},{236,227094755527416u},{236,267670686401126u},{236,433901545617977u},{236,454189511054832u},{236,474477476491687u},{236,515053407365397u},{236,535341372802252u},{236,555629338239107u},{236,867803091235954u},{236,888091056672809u},{236,908379022109664u},{236,1009818849293939u},{236,1030106814730794u},{236,1050394780167649u},{236,1938485836840458u},{236,1958773802277313u},{236,1979061767714168u},{236,2019637698587878u},{236,2039925664024733u},{236,2060213629461588u},{236,3958123535428336u},{236,3998699466302046u},{236,4039275397175756u},{236,4079851328049466u},{236,7997398932604092u},{236,8078550794351512u},{236,11975810433469283u},{236,12138114156964123u},{236,15994797865208184u},{236,16157101588703024u},{236,20094937158694505u},{236,28132912022172307u},{236,36170886885650109u},{236,40189874317389010u},{236,68160482616066477u},{236,76198457479544279u},{236,80379748634778020u},{236,108350356933455487u},{236,136320965232132954u},{236,140502256387366695u},{236,216700713866910974u},{236,276823221619499649u},{236,308975121073410857u},{236,433401427733821948u},{236,557827734394233039u},{236,617950242146821714u},{236,862621564312410155u},{236,866802855467643896u},{236,1107292886477998596u},{236,1111474177633232337u},{236,1115655468788466078u},{236,1235900484293643428u},{236,1978277033100876233u},{236,2222948355266464674u},{236,2471800968587286856u},{236,3214177517394519661u},{236,3956554066201752466u},{236,4943601937174573712u},{236,6428355034789039322u},{236,9144827325541914619u},{236,9634169969873091501u},{236,9887203874349147424u},
{237,101178912453555u},{237,105236505540926u},{237,109294098628297u},{237,917016037745846u},{237,3954065942340965u},{237,4018987431738901u},{237,4083908921136837u},{237,7908131884681930u},{237,8037974863477802u},{237,8167817842273674u},{237,11959580061119799u},{237,12089423039915671u},{237,16075949726955604u},{237,19997554924597601u},{237,24178846079831342u},{237,28100451277473339u},{237,32151899453911208u},{237,44176401004428943u},{237,56200902554946678u},{237,60122507752588675u},{237,64303798907822416u},{237,84171510853624145u},{237,88352802008857886u},{237,104039222799425874u},{237,108220513954659615u},{237,112401805109893356u},{237,116583096265127097u},{237,124426306660411091u},{237,172524312862482031u},{237,220622319064552971u},{237,224803610219786712u},{237,248852613320822182u},{237,345048625724964062u},{237,397327923082268743u},{237,541621941688481563u},{237,690097251449928124u},{237,838572561211374685u},{237,951493738236451529u},{237,961960124041418800u},{237,984944067478321457u},{237,995410453283288728u},{237,1039327168330125927u},{237,1336277787853019049u},{237,1633228407375912171u},{237,2078654336660251854u},{237,3013422910275768419u},{237,3607324149321554663u},{237,3904274768844447785u},{237,5092077246936020273u},{237,6279879725027592761u},{237,7467682203119165249u},{237,7808549537688895570u},{237,8061583442164951493u},
{238,790813188468193u},{238,855734677866129u},{238,920656167264065u},{238,985577656662001u},{238,1581626376936386u},{238,2339978820705611u},{238,2469821799501483u},{238,3163252753872772u},{238,4051448176437869u},{238,5568153063976319u},{238,6326505507745544u},{238,8102896352875738u},{238,8731405817849091u},{238,10507796662979285u},{238,11136306127952638u},{238,12024501550517735u},{238,16834302170724829u},{238,21644102790931923u},{238,24049003101035470u},{238,33668604341449658u},{238,43288205581863846u},{238,48098006202070940u},{238,67337208682899316u},{238,81138101078547245u},{238,95785778038748257u},{238,96196012404141880u},{238,96606246769535503u},{238,129236107280618185u},{238,167714512242274937u},{238,225432119684760065u},{238,258472214561236370u},{238,335429024484549874u},{238,483904334245996435u},{238,670858048969099748u},{238,703898143845576053u},{238,780854953768889557u},{238,846935143521842167u},{238,901728478739040260u},{238,967808668491992870u},{238,1154762383215096183u},{238,1341716097938199496u},{238,1407796287691152106u},{238,1561709907537779114u},{238,2562558670906248289u},{238,2936466100352454915u},{238,3123419815075558228u},{238,4498176007890234029u},{238,5872932200704909830u},{238,6246839630151116456u},{238,6873780964073379005u},{238,8996352015780468058u},{238,9623293349702730607u},
{239,102979371705393u},{239,113612606446388u},{239,135440116404361u},{239,146073351145356u},{239,184131233452813u},{239,270880232808722u},{239,368262466905626u},{239,519932955659471u},{239,736524933811252u},{239,758352443769225u},{239,1018038401360969u},{239,1039865911318942u},{239,1061693421276915u},{239,1083520931234888u},{239,1494877377580477u},{239,2101559332595857u},{239,2404900310103547u},{239,3618264220134307u},{239,4203118665191714u},{239,4809800620207094u},{239,7821382885326021u},{239,8406237330383428u},{239,9444981160750404u},{239,9619601240414188u},{239,9794221320077972u},{239,10204455685471595u},{239,15642765770652042u},{239,16227620215709449u},{239,16812474660766856u},{239,19239202480828376u},{239,25847221456123637u},{239,32455240431418898u},{239,38478404961656752u},{239,45086423936952013u},{239,51694442912247274u},{239,58302461887542535u},{239,64910480862837796u},{239,76956809923313504u},{239,83564828898608765u},{239,90172847873904026u},{239,103388885824494548u},{239,109996904799789809u},{239,116604923775085070u},{239,180345695747808052u},{239,193561733698398574u},{239,206777771648989096u},{239,387123467396797148u},{239,587293220070490983u},{239,774246934793594296u},{239,947984611566107087u},{239,1000848763368469175u},{239,1121722288338619878u},{239,1174586440140981966u},{239,1374756192814675801u},{239,2349172880281963932u},{239,2749512385629351602u},{239,2923250062401864393u},{239,4698345760563927864u},{239,5499024771258703204u},{239,5672762448031215995u},{239,9222953844355342937u},{239,9396691521127855728u},{239,9781885805109816871u},{239,9955623481882329662u},
{240,100069921521086u},{240,103762174941501u},{240,108576509313882u},{240,112268762734297u},{240,117083097106678u},{240,151670488753845u},{240,212338684255383u},{240,303340977507690u},{240,402849858552793u},{240,424677368510766u},{240,606681955015380u},{240,706190836060483u},{240,849354737021532u},{240,939234949321873u},{240,951433790535084u},{240,989948465514132u},{240,1213363910030760u},{240,1312872791075863u},{240,1698709474043064u},{240,1798218355088167u},{240,2040891137094319u},{240,3011582265118927u},{240,3596436710176334u},{240,4081782274188638u},{240,5637327847270653u},{240,6023164530237854u},{240,7777727865410075u},{240,8163564548377276u},{240,8549401231344477u},{240,11660492377508507u},{240,14771583523672537u},{240,16712965779721753u},{240,23320984755017014u},{240,29929003730312275u},{240,33425931559443506u},{240,46641969510034028u},{240,59858007460624550u},{240,66851863118887012u},{240,93283939020068056u},{240,106885813653625779u},{240,119716014921249100u},{240,133703726237774024u},{240,200169752673693835u},{240,213771627307251558u},{240,253805577841990325u},{240,400339505347387670u},{240,413941379980945393u},{240,654145083189377995u},{240,800679010694775340u},{240,971329994003550523u},{240,1134552489606243199u},{240,1308290166378755990u},{240,1775095698162063471u},{240,2095367302439973607u},{240,2269104979212486398u},{240,2442842655984999189u},{240,3550191396324126942u},{240,3723929073096639733u},{240,4538209958424972796u},{240,5993034052309126131u},{240,7447858146193279466u},{240,9076419916849945592u},
{241,121336391003076u},{241,158700175178475u},{241,205308997830753u},{241,242672782006152u},{241,447981779836905u},{241,485345564012304u},{241,821235991323012u},{241,895963559673810u},{241,970691128024608u},{241,1207072674290213u},{241,1281800242641011u},{241,1555545573082015u},{241,2177763802314821u},{241,2563600485282022u},{241,2799982031547627u},{241,3111091146164030u},{241,3496927829131231u},{241,4741364287596843u},{241,5985800746062455u},{241,6222182292328060u},{241,6608018975295261u},{241,6993855658262462u},{241,9096891892226485u},{241,9482728575193686u},{241,10254401941128088u},{241,11199928126190508u},{241,11585764809157709u},{241,11971601492124910u},{241,13216037950590522u},{241,16090747550488947u},{241,23943202984249820u},{241,32181495100977894u},{241,40033950534738767u},{241,47886405968499640u},{241,50761115568398065u},{241,80067901069477534u},{241,97316158668868084u},{241,97451880443284937u},{241,99419194902832107u},{241,99554916677248960u},{241,101522231136796130u},{241,130829016637875599u},{241,160135802138955068u},{241,189442587640034537u},{241,203044462273592260u},{241,261658033275751198u},{241,320271604277910136u},{241,378885175280069074u},{241,523316066551502396u},{241,640543208555820272u},{241,812177849094369040u},{241,933611063566614962u},{241,990121598334809877u},{241,1046632133103004792u},{241,1281086417111640544u},{241,1337596951879835459u},
{242,126960140142780u},{242,136872665220502u},{242,179192711934762u},{242,226469021187883u},{242,311109114616403u},{242,358385423869524u},{242,622218229232806u},{242,716770847739048u},{242,1008054912200007u},{242,1102607530706249u},{242,1197160149212491u},{242,1244436458465612u},{242,1819378378445297u},{242,2394320298424982u},{242,2488872916931224u},{242,3063814836910909u},{242,3638756756890594u},{242,8427397353740558u},{242,9577281193699928u},{242,9758760221770179u},{242,9955491667724896u},{242,10152223113679613u},{242,12451990793598353u},{242,19154562387399856u},{242,20304446227359226u},{242,31606553180998209u},{242,38309124774799712u},{242,40608892454718452u},{242,51910999408357435u},{242,81217784909436904u},{242,92519891863075887u},{242,103821998816714870u},{242,115124105770353853u},{242,162435569818873808u},{242,570627530600022351u},{242,593231744507300317u},{242,850290242423214035u},{242,895498670237769967u},{242,1096046633385488770u},{242,1141255061200044702u},{242,1186463489014600634u},{242,9884649434593879167u},{242,9971660845970222978u},
{243,101568112114224u},{243,107972890387955u},{243,141828927759363u},{243,162264693249058u},{243,182700458738753u},{243,203136224228448u},{243,250412533481569u},{243,324529386498116u},{243,365400917477506u},{243,439517770494053u},{243,480389301473443u},{243,968404811889119u},{243,971145298157344u},{243,1034895455963433u},{243,1264872223955307u},{243,1494848991947181u},{243,2069790911926866u},{243,2529744447910614u},{243,2989697983894362u},{243,6242618057817755u},{243,7162525129785251u},{243,8542385737736495u},{243,10382199881671487u},{243,12222014025606479u},{243,14061828169541471u},{243,17084771475472990u},{243,20764399763342974u},{243,28386878429111973u},{243,41528799526685948u},{243,52830906480324931u},{243,56773756858223946u},{243,83057599053371896u},{243,87000449431270911u},{243,105661812960649862u},{243,109604663338548877u},{243,113547513716447892u},{243,170058048484642807u},{243,219209326677097754u},{243,340116096969285614u},{243,434475802976296493u},{243,438418653354195508u},{243,680232193938571228u},{243,774591899945582107u},{243,971197012715401895u},{243,990642561542331489u},{243,991179967667462451u},{243,998259559235564038u},{243,998796965360695000u},{243,1258218981114333547u},{243,1549183799891164214u},{243,1840148618667994881u},{243,2036753731437814669u},{243,2618683368991476003u},{243,3200613006545137337u},{243,4073507462875629338u},{243,5237366737982952006u},{243,6401226013090274674u},{243,7942524112225640858u},{243,8147014925751258676u},{243,9208628794095772435u},{243,9413119607621390253u},
{244,106814077800059u},{244,123162690191815u},{244,139511302583571u},{244,213628155600118u},{244,246325380383630u},{244,344965151987811u},{244,558593307587929u},{244,689930303975622u},{244,853964525146827u},{244,854512622400472u},{244,985301521534520u},{244,985849618788165u},{244,1117186615175858u},{244,1248523611563551u},{244,1379860607951244u},{244,1511197604338937u},{244,1708477147547299u},{244,2497047223127102u},{244,2759721215902488u},{244,3416954295094598u},{244,4205524370674401u},{244,4994094446254204u},{244,6833908590189196u},{244,7622478665768999u},{244,8411048741348802u},{244,12879247104798589u},{244,13667817180378392u},{244,24969924134017375u},{244,25758494209597178u},{244,49939848268034750u},{244,98571259447475375u},{244,99610993473504019u},{244,99879696536069500u},{244,192662262391920773u},{244,194239402543080379u},{244,195816542694239985u},{244,289387678625671061u},{244,292541958927990273u},{244,388478805086160758u},{244,482838511093171637u},{244,776957610172321516u},{244,876048736632811213u},{244,965677022186343274u},{244,1067922428949152183u},{244,1259796121265493153u},{244,1451669813581834123u},{244,1553915220344643032u},{244,1841725758819154487u},{244,2519592242530986306u},{244,2813711341610136185u},{244,3683451517638308974u},{244,5333303584141122491u},{244,6305289166932104189u},{244,7366903035276617948u},{244,9016755101779431465u},
{245,197060304306904u},{245,197169923757633u},{245,394230228064537u},{245,394339847515266u},{245,788460456129074u},{245,788679695030532u},{245,1051024829453731u},{245,1051244068355189u},{245,1051463307256647u},{245,1051682546158105u},{245,1839923763385721u},{245,2365490987837951u},{245,2891277451191639u},{245,3679847526771442u},{245,4993984826803475u},{245,5782554902383278u},{245,9984461831183622u},{245,9987969653606950u},{245,9991477476030278u},{245,10776539729186753u},{245,19975939307213900u},{245,37586168387688391u},{245,39163308538847997u},{245,39951878614427800u},{245,59139247846061897u},{245,78326617077695994u},{245,79903757228855600u},{245,92782565855851273u},{245,99091126460489697u},{245,118278495692123794u},{245,137465864923757891u},{245,156653234155391988u},{245,485992791395490849u},{245,562742268322027237u},{245,677866483711831819u},{245,831365437564904595u},{245,971985582790981698u},{245,1125484536644054474u},{245,1138363345271050147u},{245,1355732967423663638u},{245,1803351020355886293u},{245,2250969073288108948u},{245,2852086080073404379u},{245,3606702040711772586u},{245,4361318001350140793u},{245,6458788120785176965u},{245,7213404081423545172u},
{246,157560547884940u},{246,157779786786398u},{246,210117270330163u},{246,210336509231621u},{246,262783612226115u},{246,315559573572796u},{246,367897057116561u},{246,420673018463242u},{246,473010502007007u},{246,525567224452230u},{246,683456630689357u},{246,735794114233122u},{246,893683520470249u},{246,990027409302375u},{246,991781320514039u},{246,993535231725703u},{246,998796965360695u},{246,1366913261378714u},{246,1419250744922479u},{246,1787367040940498u},{246,1997593930721390u},{246,2786164006301193u},{246,3574734081880996u},{246,3627071565424761u},{246,3995187861442780u},{246,5572328012602386u},{246,5624665496146151u},{246,7201805647305757u},{246,7885700755798030u},{246,7938038239341795u},{246,7990375722885560u},{246,8042713206429325u},{246,8095050689973090u},{246,11196993508748537u},{246,14403611294611514u},{246,15980751445771120u},{246,22393987017497074u},{246,28754885105679263u},{246,28807222589223028u},{246,31961502891542240u},{246,44735636551450383u},{246,44787974034994148u},{246,57562107694902291u},{246,63923005783084480u},{246,102245406762808909u},{246,102350081729896439u},{246,115124215389804582u},{246,166273087512980919u},{246,191821354832797205u},{246,230248430779609164u},{246,332546175025961838u},{246,422069785612406369u},{246,626665274105111717u},{246,665092350051923676u},{246,844139571224812738u},{246,1291757624157035393u},{246,1649852066502813517u},{246,1688279142449625476u},{246,2583515248314070786u},{246,3338131208952438993u},{246,5167030496628141572u},{246,6637835341958066027u},{246,6676262417904877986u},{246,8786401996032734771u},{246,8863256147926358689u},{246,8940110299819982607u},
{247,105113444890446u},{247,115580941599199u},{247,126048438307952u},{247,199759393072139u},{247,210226889780892u},{247,220694386489645u},{247,399518786144278u},{247,409986282853031u},{247,420453779561784u},{247,788570075579803u},{247,799037572288556u},{247,809505068997309u},{247,819972565706062u},{247,830440062414815u},{247,1577140151159606u},{247,1587607647868359u},{247,1598075144577112u},{247,1608542641285865u},{247,1619010137994618u},{247,3175215295736718u},{247,3185682792445471u},{247,3196150289154224u},{247,3206617785862977u},{247,3217085282571730u},{247,6339963094764683u},{247,6350430591473436u},{247,6360898088182189u},{247,6402768075017201u},{247,6413235571725954u},{247,6423703068434707u},{247,12763666163199390u},{247,12784601156616896u},{247,12805536150034402u},{247,25569202313233792u},{247,38364270966559441u},{247,51138404626467584u},{247,63975343266628245u},{247,76728541933118882u},{247,100476399819029652u},{247,100560139792699676u},{247,100643879766369700u},{247,140703885199747127u},{247,153457083866237764u},{247,242980694452682295u},{247,345341243679287487u},{247,524388464852176549u},{247,652255411411763015u},{247,971922777810729180u},{247,1048776929704353098u},{247,1342937898770337989u},{247,3235770659725833801u},{247,6471541319451667602u},{247,7430878378543246193u},{247,8607522254807185757u},{247,9784166131071125321u},
{248,109212748013364u},{248,119680244722117u},{248,166088012482963u},{248,176555509191716u},{248,321708528257173u},{248,332176024965926u},{248,342643521674679u},{248,632949559805593u},{248,643417056514346u},{248,653884553223099u},{248,664352049931852u},{248,1265899119611186u},{248,1276366616319939u},{248,1286834113028692u},{248,1297301609737445u},{248,2552733232639878u},{248,2573668226057384u},{248,5105466465279756u},{248,7689602188045893u},{248,10022517989801958u},{248,10064387976636970u},{248,10210932930559512u},{248,12795068653325649u},{248,23006001583885161u},{248,25590137306651298u},{248,48596138890536459u},{248,51180274613302596u},{248,92024006335540644u},{248,97192277781072918u},{248,102360549226605192u},{248,130451082282352603u},{248,194384555562145836u},{248,260902164564705206u},{248,360678578068544261u},{248,521804329129410412u},{248,721357156137088522u},{248,882482907197954673u},{248,1043608658258820824u},{248,1148553343208192153u},{248,1764965814395909346u},{248,2192162001467012977u},{248,2780483939598982759u},{248,4384324002934025954u},{248,5133771692126861887u},{248,5560967879197965518u},{248,8768648005868051908u},{248,9518095695060887841u},
{249,104118193144696u},{249,114585689853449u},{249,123939638676534u},{249,125053186562202u},{249,134963909328121u},{249,145431406036874u},{249,155898902745627u},{249,259460321947489u},{249,269927818656242u},{249,280395315364995u},{249,518920643894978u},{249,539855637312484u},{249,985503804246191u},{249,1000425492497616u},{249,1003320570416879u},{249,1003543719744434u},{249,1006438797663697u},{249,1037841287789956u},{249,1504424448141169u},{249,1546294434976181u},{249,2012877595327394u},{249,2075682575579912u},{249,2542265735931125u},{249,3092588869952362u},{249,3559172030303575u},{249,5084531471862250u},{249,5634854605883487u},{249,7668667194628387u},{249,8302730302319648u},{249,8685573489000837u},{249,9068416675682026u},{249,9786219757043311u},{249,11269709211766974u},{249,12753198666490637u},{249,15337334389256774u},{249,17371146978001674u},{249,22539418423533948u},{249,24022907878257611u},{249,29191179323789885u},{249,30674668778513548u},{249,33258804501279685u},{249,46562326301791559u},{249,59865848102303433u},{249,65034119547835707u},{249,66517609002559370u},{249,68001098457283033u},{249,91641163148859455u},{249,94608142058306781u},{249,118248206749883203u},{249,119731696204606866u},{249,121215185659330529u},{249,133035218005118740u},{249,134518707459842403u},{249,186249305207166236u},{249,187732794661889899u},{249,240946881863937395u},{249,267553925464961143u},{249,373982099869056135u},{249,480410274273151127u},{249,481893763727874790u},{249,535107850929922286u},{249,747964199738112270u},{249,855875863596930925u},{249,1070215701859844572u},{249,1603840063335043195u},{249,1711751727193861850u},{249,3207680126670086390u},{249,3315591790528905045u},{249,5240199866530956879u},{249,6415360253340172780u},{249,6631183581057810090u},{249,7806343967867025991u},{249,8657769363099785927u},{249,9089416018535060547u},{249,9521062673970335167u},
{250,112158126145998u},{250,192913762165737u},{250,224316252291996u},{250,284136894894229u},{250,326006881729241u},{250,385827524331474u},{250,508453147186225u},{250,711834406060715u},{250,873345678100193u},{250,897265009167984u},{250,1016906294372450u},{250,1423668812121430u},{250,2033812588744900u},{250,2177373205017157u},{250,2847337624242860u},{250,2990898240515117u},{250,4067625177489800u},{250,4211185793762057u},{250,5838235864757977u},{250,6651760900255937u},{250,8135250354979600u},{250,8422371587524114u},{250,9905861042247777u},{250,11676471729515954u},{250,13303521800511874u},{250,18328232629771891u},{250,23352943459031908u},{250,24836432913755571u},{250,26607043601023748u},{250,36656465259543782u},{250,38139954714267445u},{250,48189376372787479u},{250,53214087202047496u},{250,74796419973811227u},{250,96378752745574958u},{250,100829221109745947u},{250,102312710564469610u},{250,106428174404094992u},{250,128010507175858723u},{250,149592839947622454u},{250,171175172719386185u},{250,192757505491149916u},{250,234438681579953715u},{250,256021014351717446u},{250,277603347123481177u},{250,342350345438772370u},{250,363932678210536101u},{250,385515010982299832u},{250,576789027018726085u},{250,598371359790489816u},{250,619953692562253547u},{250,663118358105781009u},{250,684700690877544740u},{250,706283023649308471u},{250,937754726319814860u},{250,980919391863342322u},{250,1239907385124507094u},{250,1283072050668034556u},{250,1326236716211562018u},{250,1369401381755089480u},{250,2566144101336069112u},{250,2652473432423124036u},{250,3827633819232339937u},{250,4000292481406449785u},{250,5132288202672138224u},{250,5304946864846248072u},{250,6436942586111936511u},{250,7655267638464679874u},{250,8000584962812899570u},{250,9132580684078588009u},
{251,101690629437245u},{251,120835020264580u},{251,123222490384808u},{251,142366881212143u},{251,203381258874490u},{251,284733762424286u},{251,406762517748980u},{251,569467524848572u},{251,669964419225703u},{251,813525035497960u},{251,957085651770217u},{251,995374433424887u},{251,1138935049697144u},{251,1282495665969401u},{251,1627050070995920u},{251,2277870099394288u},{251,3072250744064913u},{251,3254100141991840u},{251,4373890800861649u},{251,7627990942853489u},{251,10202576785138714u},{251,10231271056446961u},{251,10259965327755208u},{251,15255981885706978u},{251,18979052658170259u},{251,30511963771413956u},{251,34235034543877237u},{251,37958105316340518u},{251,46887736315990743u},{251,68470069087754474u},{251,85573239224038969u},{251,87085422950070879u},{251,93775472631981486u},{251,115357805403745217u},{251,136940138175508948u},{251,158522470947272679u},{251,187550945263962972u},{251,230715610807490434u},{251,273880276351017896u},{251,317044941894545358u},{251,338627274666309089u},{251,461431221614980868u},{251,547760552702035792u},{251,677254549332618178u},{251,800058496281289957u},{251,922862443229961736u},{251,1095521105404071584u},{251,1218325052352743363u},{251,1600116992562579914u},{251,1895579601685361541u},{251,2904771376002378201u},{251,3200233985125159828u},{251,5809542752004756402u},
{252,100496894377131u},{252,104325772542598u},{252,108154650708065u},{252,147389494437724u},{252,155047250768658u},{252,162705007099592u},{252,170362763430526u},{252,178020519761460u},{252,310094501537316u},{252,325410014199184u},{252,340725526861052u},{252,476628386802375u},{252,491943899464243u},{252,650820028398368u},{252,802038401001559u},{252,983887798928486u},{252,1012582070236733u},{252,1014518824252222u},{252,1016455578267711u},{252,1150421684193545u},{252,1301640056796736u},{252,1452858429399927u},{252,2603280113593472u},{252,2754498486196663u},{252,2905716858799854u},{252,5206560227186944u},{252,5357778599790135u},{252,5508996972393326u},{252,9959465336564315u},{252,10715557199580270u},{252,10866775572183461u},{252,11017993944786652u},{252,21431114399160540u},{252,21733551144366922u},{252,28726037571483911u},{252,29028474316690293u},{252,36172179116410473u},{252,43467102288733844u},{252,57452075142967822u},{252,64746998315291193u},{252,72344358232820946u},{252,79639281405144317u},{252,86934204577467688u},{252,114904150285935644u},{252,122199073458259015u},{252,129493996630582386u},{252,194543431691079961u},{252,209133278035726703u},{252,280872762778134885u},{252,310052455467428369u},{252,389086863382159922u},{252,418266556071453406u},{252,497300963986184959u},{252,620104910934856738u},{252,699139318849588291u},{252,915567520057638365u},{252,994601927972369918u},{252,1015276950508514503u},{252,1032286290814812301u},{252,1052961313350956886u},{252,1319244229784445029u},{252,1398278637699176582u},{252,1910169448030008283u},{252,1989203855944739836u},{252,2126597649238058357u},{252,2796557275398353164u},{252,3308448085729184865u},{252,3820338896060016566u},{252,6105005361127538029u},{252,6616896171458369730u},{252,7128786981789201431u},{252,7640677792120033132u},{252,8506390596952233428u},
{253,101839233228320u},{253,102190880139009u},{253,142416415809168u},{253,166533885265059u},{253,190651354720950u},{253,230084336838709u},{253,278319275750491u},{253,333067770530118u},{253,381302709441900u},{253,460168673677418u},{253,611387046280609u},{253,817353913663427u},{253,920337347354836u},{253,962058730398773u},{253,1071555719958027u},{253,1222774092561218u},{253,1634707827326854u},{253,1991893067312863u},{253,2143111439916054u},{253,2294329812519245u},{253,4286222879832108u},{253,5866182212379335u},{253,6992486427116989u},{253,8572445759664216u},{253,10152405092211443u},{253,11732364424758670u},{253,12707450266893133u},{253,17144891519328432u},{253,20304810184422886u},{253,24439814691651803u},{253,30154778531427947u},{253,44744624876074689u},{253,48879629383303606u},{253,56174552555626977u},{253,89489249752149378u},{253,93624254259378295u},{253,101894263273836129u},{253,102128924412527194u},{253,108214100604025037u},{253,112349105111253954u},{253,183113504011527673u},{253,187248508518756590u},{253,216428201208050074u},{253,224698210222507908u},{253,295462609122781627u},{253,366227008023055346u},{253,590925218245563254u},{253,661689617145836973u},{253,732454016046110692u},{253,865712804832200296u},{253,898792840890031632u},{253,953017221761389683u},{253,1323379234291673946u},{253,2134867658252516191u},{253,2646758468583347892u},{253,3158649278914179593u},{253,4781626126835864083u},{253,5293516937166695784u},{253,5805407747497527485u},{253,6317298557828359186u},{253,7569913393219759413u},{253,8593695013881422815u},{253,9563252253671728166u},
{254,100378011344271u},{254,102983433691409u},{254,105588856038547u},{254,149915661429622u},{254,152521083776760u},{254,155126506123898u},{254,205966867382818u},{254,305042167553520u},{254,458865962503849u},{254,662227407539529u},{254,870799697269485u},{254,917731925007698u},{254,1173236442475867u},{254,1835463850015396u},{254,2346472884951734u},{254,3623995472292579u},{254,4692945769903468u},{254,7294923172323371u},{254,18724850851875659u},{254,24950823726588141u},{254,37449701703751318u},{254,74899403407502636u},{254,87492145840142239u},{254,91721014802847582u},{254,95574425943647221u},{254,99803294906352564u},{254,104032163869057907u},{254,129029919823384261u},{254,149798806815005272u},{254,208064327738115814u},{254,370362012530284263u},{254,740724025060568526u},{254,1069548263607610767u},{254,1161081549499505497u},{254,1252614835391400227u},{254,1344148121283294957u},{254,1718739002776284563u},{254,2322163098999010994u},{254,3437478005552569126u},{254,4644326197998021988u},{254,6874956011105138252u},{254,7661446679111654143u},{254,9288652395996043976u},
{255,110546083596055u},{255,122016867021408u},{255,151218372603191u},{255,174159939453897u},{255,244033734042816u},{255,348319878907794u},{255,395252106646007u},{255,441135240347419u},{255,488067468085632u},{255,696639757815588u},{255,743571985553801u},{255,929202708433051u},{255,1020968975835875u},{255,1023067163909477u},{255,1068950297610889u},{255,1440211743369389u},{255,1487143971107602u},{255,1858405416866102u},{255,1905337644604315u},{255,2880423486738778u},{255,2927355714476991u},{255,3716810833732204u},{255,3763743061470417u},{255,4971391854222343u},{255,5854711428953982u},{255,6644166548209195u},{255,8316941242196047u},{255,9059464133713047u},{255,9247193044665899u},{255,9942783708444686u},{255,10826103283176325u},{255,13288333096418390u},{255,14171652671150029u},{255,16633882484392094u},{255,21652206566352650u},{255,24114436379594715u},{255,30805535155542123u},{255,33267764968784188u},{255,34151084543515827u},{255,43304413132705300u},{255,52457741721894773u},{255,68302169087031654u},{255,77455497676221127u},{255,86608826265410600u},{255,104915483443789546u},{255,114068812032979019u},{255,123222140622168492u},{255,137299928837842095u},{255,438664181617315917u},{255,475277495974073809u},{255,511890810330831701u},{255,603424096222726431u},{255,676650724936242215u},{255,1023781620661663402u},{255,1042783868503821135u},{255,1206848192445452862u},{255,1700432345597905617u},{255,1846885603024937185u},{255,2413696384890905724u},{255,2907280538043358479u},{255,3400864691195811234u},{255,4187355359202327125u},{255,5814561076086716958u},{255,7588220050398138359u},{255,8868294871557107005u},{255,9654785539563622896u},
{256,104901751091167u},{256,129941506015475u},{256,167067650591325u},{256,204193795167175u},{256,232562950617463u},{256,306815239769163u},{256,381067528920863u},{256,566698251800113u},{256,762135057841726u},{256,930251802469852u},{256,937959697558613u},{256,1328833309641839u},{256,1524270115683452u},{256,2165220656635265u},{256,2657666619283678u},{256,3150112581932091u},{256,3837995350622117u},{256,4330441313270530u},{256,4822887275918943u},{256,5315333238567356u},{256,5807779201215769u},{256,7675990701244234u},{256,8660882626541060u},{256,9645774551837886u},{256,10630666477134712u},{256,11615558402431538u},{256,12600450327728364u},{256,17321765253082120u},{256,19291549103675772u},{256,26475093842271593u},{256,27459985767568419u},{256,34643530506164240u},{256,45766642945947365u},{256,52950187684543186u},{256,54919971535136838u},{256,80410173452111605u},{256,91533285891894730u},{256,102656398331677855u},{256,105900375369086372u},{256,109839943070273676u},{256,135330144987248443u},{256,160820346904223210u},{256,208556773700764227u},{256,270660289974496886u},{256,369377120604987437u},{256,442603749318503221u},{256,541320579948993772u},{256,640037410579484323u},{256,878719544562189408u},{256,881963521599597925u},{256,885207498637006442u},{256,888451475674414959u},{256,891695452711823476u},{256,894939429749231993u},{256,1280074821158968646u},{256,1477508482419949748u},{256,1674942143680930850u},{256,1773658974311421401u},{256,2168526296833383605u},{256,3349884287361861700u},{256,3547317948622842802u},{256,4337052593666767210u},{256,5518410584195245305u},{256,7094635897245685604u},{256,8674105187333534420u},{256,9065728532818088107u},
{257,103953204812380u},{257,121184516889913u},{257,133654120473060u},{257,150885432550593u},{257,163355036133740u},{257,284539553023653u},{257,433044131327053u},{257,551847793969773u},{257,866088262654106u},{257,1103695587939546u},{257,1120926900017079u},{257,1477337887945239u},{257,1732176525308212u},{257,3209514413253451u},{257,3464353050616424u},{257,6928706101232848u},{257,9153328589189473u},{257,10172683138641365u},{257,10358596527694206u},{257,10682360413367311u},{257,11632789714509071u},{257,13857412202465696u},{257,16082034690422321u},{257,18306657178378946u},{257,20531279666335571u},{257,27714824404931392u},{257,32164069380844642u},{257,36613314356757892u},{257,41062559332671142u},{257,64328138761689284u},{257,73226628713515784u},{257,86574363641255534u},{257,89818340678664051u},{257,93062317716072568u},{257,107615320582317051u},{257,128656277523378568u},{257,167494214368093085u},{257,296150491891471653u},{257,334988428736186170u},{257,433705259366676721u},{257,669976857472372340u},{257,867410518733353442u},{257,1103682116839049061u},{257,1339953714944744680u},{257,1734821037466706884u},{257,2207364233678098122u},{257,2679907429889489360u},{257,3469642074933413768u},{257,4414728467356196244u},{257,6858364299139989985u},{257,6939284149866827536u},{257,8829456934712392488u},{257,8910376785439230039u},
{258,106923296378448u},{258,130684028906992u},{258,166325127699808u},{258,183556439777341u},{258,213846592756896u},{258,231077904834429u},{258,261368057813984u},{258,302360102420061u},{258,397403032534237u},{258,492445962648413u},{258,604720204840122u},{258,794806065068474u},{258,984891925296826u},{258,1045472231255936u},{258,1049644702431447u},{258,1144687632545623u},{258,1524859353002327u},{258,1589612130136948u},{258,1969783850593652u},{258,2034536627728273u},{258,3624148757865221u},{258,4069073255456546u},{258,4894169473504575u},{258,5784018468687225u},{258,6673867463869875u},{258,9472920003687067u},{258,9788338947009150u},{258,11568036937374450u},{258,22820654931426817u},{258,26380050912157417u},{258,29939446892888017u},{258,33498842873618617u},{258,35278540863983917u},{258,42397332825445117u},{258,59878893785776034u},{258,66997685747237234u},{258,70557081727967834u},{258,84794665650890234u},{258,88038642688298751u},{258,102276226611221151u},{258,133995371494474468u},{258,141114163455935668u},{258,158595724416266585u},{258,204552453222442302u},{258,222034014182773219u},{258,267990742988948936u},{258,363148177638708887u},{258,409104906444884604u},{258,490024757171722155u},{258,535981485977897872u},{258,645376504550580223u},{258,726296355277417774u},{258,899129663616606759u},{258,1060969365070281861u},{258,1071962971955795744u},{258,1082956578841309627u},{258,1371672859827997997u},{258,1717339476506375967u},{258,1798259327233213518u},{258,2143925943911591488u},{258,2743345719655995994u},{258,3515598803739589485u},{258,4287851887823182976u},{258,4368771738550020527u},{258,5486691439311991988u},{258,7031197607479178970u},{258,7112117458206016521u},{258,8656623626373203503u},
{259,100158180999887u},{259,102043740420287u},{259,104330652175398u},{259,106216211595798u},{259,108101771016198u},{259,171911768440619u},{259,184027829632441u},{259,254838637362973u},{259,279070759746617u},{259,343823536881238u},{259,368055659264882u},{259,881905405166339u},{259,897792585198961u},{259,938313239949938u},{259,978833894700915u},{259,1156803693737445u},{259,1334773492773975u},{259,1512743291810505u},{259,1957667789401830u},{259,2313607387474890u},{259,2669546985547950u},{259,3915335578803660u},{259,4627214774949780u},{259,5339093971095900u},{259,7830671157607320u},{259,9254429549899560u},{259,10678187942191800u},{259,12101946334484040u},{259,12498406587308077u},{259,13525704726776280u},{259,24600352921792117u},{259,27447869706376597u},{259,31719144883253317u},{259,37414178452422277u},{259,43109212021591237u},{259,63438289766506634u},{259,74828356904844554u},{259,98004951434344431u},{259,108998558319858314u},{259,109395018572682351u},{259,109791478825506388u},{259,126876579533013268u},{259,161443241200851065u},{259,196009902868688862u},{259,241966631674864579u},{259,311099955010540173u},{259,392019805737377724u},{259,564853114076566709u},{259,703119760747917897u},{259,841386407419269085u},{259,886946675972620765u},{259,934092785537268593u},{259,967866526699458316u},{259,1129706228153133418u},{259,1406239521495835794u},{259,1763692665565375721u},{259,2178492605579429285u},{259,2812479042991671588u},{259,3446465480403913891u},{259,4990971648571100873u},{259,5624958085983343176u},{259,6258944523395585479u},{259,8241823686359149939u},{259,9509796561183634545u},{259,9981943297142201746u},
{260,195766778940183u},{260,231360738747489u},{260,266954698554795u},{260,391533557880366u},{260,462721477494978u},{260,533909397109590u},{260,783067115760732u},{260,925442954989956u},{260,1067818794219180u},{260,1210194633448404u},{260,1352570472677628u},{260,1566134231521464u},{260,1850885909979912u},{260,2135637588438360u},{260,3132268463042928u},{260,3701771819959824u},{260,4271275176876720u},{260,6264536926085856u},{260,7403543639919648u},{260,8542550353753440u},{260,10078017320411269u},{260,10424103528596987u},{260,10474477573235306u},{260,10820563781421024u},{260,27732621384835045u},{260,32288648240170213u},{260,36844675095505381u},{260,41400701950840549u},{260,64577296480340426u},{260,73689350191010762u},{260,90031904437507887u},{260,92706378117999508u},{260,108256011858848559u},{260,129154592960680852u},{260,168277281483853817u},{260,297431874444534669u},{260,336554562967707634u},{260,435698521115885857u},{260,594863748889069338u},{260,673109125935415268u},{260,712231814458588233u},{260,871397042231771714u},{260,1030562270004955195u},{260,1187053024097647055u},{260,1189727497778138676u},{260,1346218251870830536u},{260,1742794084463543428u},{260,1901959312236726909u},{260,3644753396700270337u},{260,3803918624473453818u},{260,7130341565627357193u},{260,7289506793400540674u},{260,7448672021173724155u},{260,7607837248946907636u},
{261,100648426449191u},{261,106781879421918u},{261,112915332394645u},{261,119048785367372u},{261,201296852898382u},{261,207430305871109u},{261,213563758843836u},{261,219697211816563u},{261,278618225485721u},{261,290885131431175u},{261,414860611742218u},{261,427127517687672u},{261,557236450971442u},{261,705745743173393u},{261,854255035375344u},{261,1002764327577295u},{261,1027298139468203u},{261,1102205995997430u},{261,1411491486346786u},{261,1560000778548737u},{261,1708510070750688u},{261,1857019362952639u},{261,2426522719869535u},{261,3120001557097474u},{261,3417020141501376u},{261,4407517563133217u},{261,5546524276967009u},{261,6834040283002752u},{261,7527519120230691u},{261,8815035126266434u},{261,9706090879478140u},{261,9805532547898275u},{261,11093048553934018u},{261,12380564559969761u},{261,17630070252532868u},{261,22186097107868036u},{261,24761129119939522u},{261,30010634812502629u},{261,32585666824574115u},{261,36547656511101479u},{261,44372194215736072u},{261,52196731920370665u},{261,73095313022202958u},{261,86069914750980523u},{261,88744388431472144u},{261,135691614659279702u},{261,143516152363914295u},{261,174814303182452667u},{261,206112454000991039u},{261,237410604819529411u},{261,268708755638067783u},{261,349628606364905334u},{261,412224908001982078u},{261,474821209639058822u},{261,665284588230780675u},{261,824449816003964156u},{261,949642419278117644u},{261,983615043777147637u},{261,1017587668276177630u},{261,1074835022552271132u},{261,1108807647051301125u},{261,1330569176461561350u},{261,1489734404234744831u},{261,1648899632007928312u},{261,2217615294102602250u},{261,2661138352923122700u},{261,2820303580696306181u},{261,2979468808469489662u},{261,3138634036242673143u},{261,5640607161392612362u},{261,5958937616938979324u},{261,7573864624447877643u},{261,7892195079994244605u},{261,9324682129952895934u},{261,9666287315276326405u},
{262,102599171861170u},{262,105575121392862u},{262,110220599599743u},{262,116354052572470u},{262,136242386256497u},{262,200552865515459u},{262,220441199199486u},{262,232708105144940u},{262,252596438828967u},{262,401105731030918u},{262,420994064714945u},{262,485304543973907u},{262,505192877657934u},{262,802211462061836u},{262,822099795745863u},{262,891055753211706u},{262,910944086895733u},{262,930832420579760u},{262,990497421631841u},{262,1624311257807699u},{262,1644199591491726u},{262,1941218175895628u},{262,1961106509579655u},{262,3248622515615398u},{262,3268510849299425u},{262,3902324685475283u},{262,3922213019159310u},{262,6517133364914823u},{262,6537021698598850u},{262,7804649370950566u},{262,7844426038318620u},{262,10399569716706079u},{262,10439346384074133u},{262,10479123051442187u},{262,13034266729829646u},{262,13074043397197700u},{262,18283772422392753u},{262,20878692768148266u},{262,23473613113903779u},{262,26068533459659292u},{262,28703230472782859u},{262,41757385536296532u},{262,46947226227807558u},{262,54811540599810205u},{262,57406460945565718u},{262,75650456700590417u},{262,101758766827617763u},{262,104274133838637168u},{262,109623081199620410u},{262,112138448210639815u},{262,114812921891131436u},{262,133056917646156135u},{262,151300913401180834u},{262,203517533655235526u},{262,221761529410260225u},{262,247869839537287571u},{262,266113835292312270u},{262,284357831047336969u},{262,425279063065495751u},{262,443523058820520450u},{262,532227670584624540u},{262,691392898357808021u},{262,887046117641040900u},{262,918503375129051488u},{262,941778104906114997u},{262,991479358149150284u},{262,1064455341169249080u},{262,1382785796715616042u},{262,1578439015998848921u},{262,1774092235282081800u},{262,1933257463055265281u},{262,2128910682338498160u},{262,3156878031997697842u},{262,3352531251280930721u},{262,3866514926110530562u},{262,5090135495052963123u},{262,6313756063995395684u},{262,7733029852221061124u},{262,8565343982597027927u},{262,9347956859729959443u},
{263,112971575742003u},{263,148509292201951u},{263,168397625885978u},{263,186166484115952u},{263,206054817799979u},{263,316906918087929u},{263,336795251771956u},{263,392221301915931u},{263,633813836175858u},{263,653702169859885u},{263,764554270147835u},{263,784442603831862u},{263,804330937515889u},{263,1267627672351716u},{263,1287516006035743u},{263,1307404339719770u},{263,1327292673403797u},{263,1568885207663724u},{263,2071958609867605u},{263,2614808679439540u},{263,3137770415327448u},{263,3640843817531329u},{263,5229617358879080u},{263,5772467428451015u},{263,6275540830654896u},{263,6778614232858777u},{263,7281687635062658u},{263,10459234717758160u},{263,10962308119962041u},{263,13054155063513673u},{263,13557228465717554u},{263,21924616239924082u},{263,22427689642127963u},{263,26611383529231227u},{263,43849232479848164u},{263,44352305882052045u},{263,53222767058462454u},{263,70460616009079391u},{263,88704611764104090u},{263,91219978775123495u},{263,106445534116924908u},{263,123683383067541845u},{263,177409223528208180u},{263,212891068233849816u},{263,301092606595750025u},{263,354818447056416360u},{263,425782136467699632u},{263,513983674829599841u},{263,709636894112832720u},{263,763362734573499055u},{263,851564272935399264u},{263,939765811297299473u},{263,1027967349659199682u},{263,1331072249863765231u},{263,1419273788225665440u},{263,1703128545870798528u},{263,1879531622594598946u},{263,2359039599522964913u},{263,4718079199045929826u},{263,5373990252698096211u},{263,6509409283278628563u},{263,7821231390582961333u},{263,9133053497887294103u},{263,9436158398091859652u},
{264,106287927540824u},{264,110852100287950u},{264,130740433971977u},{264,152910854029567u},{264,261480867943954u},{264,305821708059134u},{264,414391721973521u},{264,522961735887908u},{264,611643416118268u},{264,759990097400709u},{264,828783443947042u},{264,1035163483586041u},{264,1045923471775816u},{264,1056683459965591u},{264,1114716818322149u},{264,1125476806511924u},{264,1154493485690203u},{264,1657566887894084u},{264,2091846943551632u},{264,2308986971380406u},{264,2812060373584287u},{264,4183693887103264u},{264,5121047344964693u},{264,5624120747168574u},{264,8870461176410409u},{264,9235947885521624u},{264,9463847901540173u},{264,9786294657892288u},{264,10242094689929386u},{264,11248241494337148u},{264,13488435119171221u},{264,14494581923578983u},{264,17740922352820818u},{264,24736676613508369u},{264,35481844705641636u},{264,38728185134883471u},{264,49473353227016738u},{264,60218521319150005u},{264,70963689411283272u},{264,75216176644932869u},{264,77456370269766942u},{264,96706512829199403u},{264,98946706454033476u},{264,120437042638300010u},{264,141927378822566544u},{264,152672546914699811u},{264,240874085276600020u},{264,283854757645133088u},{264,305345093829399622u},{264,436527304559832899u},{264,567709515290266176u},{264,610690187658799244u},{264,741872398389232521u},{264,873054609119665798u},{264,1004236819850099075u},{264,1094678551836833357u},{264,1135419030580532352u},{264,2926749114813231089u},{264,3451477957734964197u},{264,3976206800656697305u},{264,6902955915469928394u},{264,7952413601313394610u},{264,9445119172591195944u},{264,9526600130078593934u},{264,9608081087565991924u},{264,9689562045053389914u},
{265,179515358098675u},{265,181667355736630u},{265,290237369651017u},{265,359030716197350u},{265,432128058019593u},{265,791158774216943u},{265,864256116039186u},{265,933049462585519u},{265,950265443689159u},{265,997538813855942u},{265,1225438829874491u},{265,1371633513518977u},{265,2450877659748982u},{265,3100145745597349u},{265,4544876600938569u},{265,5843412772635303u},{265,6200291491194698u},{265,9089753201877138u},{265,9446631920436533u},{265,12043704263830001u},{265,15939312778920203u},{265,18893263840873066u},{265,24087408527660002u},{265,29638431933006333u},{265,40026721306580205u},{265,48174817055320004u},{265,56322912804059803u},{265,88201538361900209u},{265,96349634110640008u},{265,104497729859379807u},{265,108978117109047953u},{265,112645825608119606u},{265,184551172472540217u},{265,192699268221280016u},{265,200847363970019815u},{265,208995459718759614u},{265,385398536442560032u},{265,393546632191299831u},{265,401694727940039630u},{265,409842823688779429u},{265,787093264382599662u},{265,795241360131339461u},{265,803389455880079260u},{265,1582334624513939123u},{265,1590482720262678922u},{265,1598630816011418721u},{265,1606778911760158520u},{265,2123359658933151829u},{265,3180965440525357844u},{265,3197261632022837442u},{265,4246719317866303658u},{265,5320621290955989271u},{265,6361930881050715688u},{265,7452129045637880899u},{265,8493438635732607316u},{265,9534748225827333733u},
{266,143612286478940u},{266,145333884589304u},{266,215848829246001u},{266,287224572957880u},{266,362043512890487u},{266,431697658492002u},{266,503073402203881u},{266,792019573272125u},{266,863395316984004u},{266,934771060695883u},{266,1006146804407762u},{266,5265520430498815u},{266,5408271917922573u},{266,7719841286468525u},{266,8005344261316041u},{266,8290847236163557u},{266,10245537886150114u},{266,10531040860997630u},{266,10816543835845146u},{266,11102046810692662u},{266,11387549785540178u},{266,13484991922950493u},{266,16010688522632082u},{266,32021377045264164u},{266,40169472794003963u},{266,72190849839268127u},{266,80338945588007926u},{266,88487041336747725u},{266,95493125186097460u},{266,95822458334891031u},{266,99402506486070574u},{266,99731839634864145u},{266,152529795427276053u},{266,160677891176015852u},{266,168825986924755651u},{266,313207686603291905u},{266,321355782352031704u},{266,329503878100771503u},{266,414894216888142607u},{266,431190408385622205u},{266,626415373206583810u},{266,642711564704063408u},{266,829788433776285214u},{266,862380816771244410u},{266,894973199766203606u},{266,1057605781592206015u},{266,1252830746413167620u},{266,1285423129408126816u},{266,1480648094229088421u},{266,1919986598363450425u},{266,2115211563184412030u},{266,2766071223637215237u},{266,2961296188458176842u},{266,4035198161547862455u},{266,5727367412095392079u},{266,7875171358274763305u},{266,8070396323095724910u},{266,8265621287916686515u},
{267,114889829183152u},{267,130542256413819u},{267,158403914654425u},{267,229779658366304u},{267,316807829308850u},{267,388183573020729u},{267,633615658617700u},{267,776367146041458u},{267,910352598676005u},{267,1053104086099763u},{267,1061870120888974u},{267,1543968257293705u},{267,2106208172199526u},{267,2811199574529105u},{267,3087936514587410u},{267,4212416344399052u},{267,4774656259304873u},{267,7023615918928157u},{267,9549312518609746u},{267,9808517389089629u},{267,10397055408363083u},{267,13199488948102977u},{267,14047231837856314u},{267,17697408267349545u},{267,19946367926972829u},{267,27246720785959291u},{267,35394816534699090u},{267,54493441571918582u},{267,62641537320658381u},{267,70789633069398180u},{267,79785471707891316u},{267,86238081677124441u},{267,92690691646357566u},{267,102534273174604039u},{267,108986883143837164u},{267,125283074641316762u},{267,141579266138796360u},{267,172476163354248882u},{267,211521156318441203u},{267,250566149282633524u},{267,289611142246825845u},{267,305907333744305443u},{267,344952326708497764u},{267,383997319672690085u},{267,423042312636882406u},{267,462087305601074727u},{267,501132298565267048u},{267,611814667488610886u},{267,650859660452803207u},{267,689904653416995528u},{267,846084625273764812u},{267,885129618237957133u},{267,924174611202149454u},{267,1002264597130534096u},{267,1041309590094726417u},{267,1080354583058918738u},{267,1535989278690760340u},{267,1575034271654952661u},{267,1614079264619144982u},{267,1653124257583337303u},{267,1692169250547529624u},{267,1731214243511721945u},{267,3150068543309905322u},{267,3228158529238289964u},{267,3306248515166674606u},{267,6456317058476579928u},{267,9658006481540350250u},{267,9723520580679062213u},{267,9789034679817774176u},{267,9970366425253888818u},
{268,102680598173213u},{268,104184312051417u},{268,109942919084220u},{268,111446632962424u},{268,126723131723540u},{268,182070519735201u},{268,214127231135637u},{268,253446263447080u},{268,308793651458741u},{268,364141039470402u},{268,419488427482063u},{268,506892526894160u},{268,562239914905821u},{268,617587302917482u},{268,672934690929143u},{268,728282078940804u},{268,940905596198237u},{268,975969735355081u},{268,1013785053788320u},{268,1124479829811642u},{268,1235174605834964u},{268,1345869381858286u},{268,2248959659623284u},{268,2470349211669928u},{268,3318092101423265u},{268,3539481653469909u},{268,4497919319246568u},{268,4940698423339856u},{268,5788441313093193u},{268,7078963306939818u},{268,8590874852833087u},{268,8995838638493136u},{268,9881396846679712u},{268,12867404620033011u},{268,14157926613879636u},{268,27025331233912647u},{268,28315853227759272u},{268,29606375221605897u},{268,55341184461671919u},{268,56631706455518544u},{268,57922228449365169u},{268,59212750443211794u},{268,74218419946844767u},{268,76799463934538017u},{268,79380507922231267u},{268,110682368923343838u},{268,113263412911037088u},{268,115844456898730338u},{268,118425500886423588u},{268,153598927869076034u},{268,192643920833268355u},{268,231688913797460676u},{268,268152862773959747u},{268,307197855738152068u},{268,346242848702344389u},{268,385287841666536710u},{268,424332834630729031u},{268,536305725547919494u},{268,614395711476304136u},{268,692485697404688778u},{268,770575683333073420u},{268,957728183042161704u},{268,965800648154035025u},{268,973873113265908346u},{268,1228791422952608272u},{268,1384971394809377556u},{268,1804142141464720087u},{268,2457582845905216544u},{268,2769942789618755112u},{268,3345293508130866927u},{268,4652174917011859841u},{268,5802876354036083471u},{268,9304349834023719682u},{268,9567340608822292929u},
{269,101378505378832u},{269,156725893390493u},{269,202757010757664u},{269,313451786780986u},{269,350166633503667u},{269,405514021515328u},{269,626903573561972u},{269,663618420284653u},{269,811028043030656u},{269,884457736476018u},{269,922273054909257u},{269,995702748354619u},{269,1069132441799981u},{269,1253807147123944u},{269,1327236840569306u},{269,2654473681138612u},{269,2912578079907937u},{269,10617894724554448u},{269,10875999123323773u},{269,11134103522093098u},{269,36463948976499071u},{269,37496366571576371u},{269,38528784166653671u},{269,39561201761730971u},{269,40593619356808271u},{269,74992733143152742u},{269,77057568333307342u},{269,96486626991030963u},{269,96673502639776042u},{269,117134978892576963u},{269,154115136666614684u},{269,193160129630807005u},{269,267120445178882447u},{269,308230273333229368u},{269,386320259261614010u},{269,501390402964036373u},{269,616460546666458736u},{269,772640518523228020u},{269,805491005916956541u},{269,838341493310685062u},{269,1002780805928072746u},{269,1035631293321801267u},{269,1232921093332917472u},{269,1265771580726645993u},{269,1463061380737762198u},{269,1495911868131490719u},{269,1808271811845029287u},{269,2268552386654718739u},{269,2728832961464408191u},{269,3419253823678942369u},{269,4537104773309437478u},{269,5457665922928816382u},{269,6838507647357884738u},{269,7035797447369000943u},{269,8876919746607758751u},{269,9074209546618874956u},
{270,110694776023322u},{270,132503589714819u},{270,147409622746003u},{270,9517849744981541u},{270,9704725393726620u},{270,9891601042471699u},{270,9930816783012461u},{270,37393124812068641u},{270,38632025926161401u},{270,77264051852322802u},{270,80567788156570162u},{270,83871524460817522u},{270,113418275550298683u},{270,116722011854546043u},{270,154528103704645604u},{270,309056207409291208u},{270,618112414818582416u},{270,3958450318493078303u},{270,7916900636986156606u},{270,9849593174500115099u},{270,9862994995365849618u},{270,9876396816231584137u},{270,9889798637097318656u},{270,9903200457963053175u},
{271,102081297717779u},{271,104402221297681u},{271,112405473668552u},{271,114726397248454u},{271,485236269686331u},{271,505884621587877u},{271,526532973489423u},{271,970472539372662u},{271,990080409643043u},{271,992161372905373u},{271,1011769243175754u},{271,1053065946978846u},{271,1094362650781938u},{271,1940945078745324u},{271,2023538486351508u},{271,2106131893957692u},{271,36154223697975881u},{271,37475718219674825u},{271,38797212741373769u},{271,40118707263072713u},{271,74951436439349650u},{271,77594425482747538u},{271,111766407398175003u},{271,114409396441572891u},{271,117052385484970779u},{271,119695374528368667u},{271,155188850965495076u},{271,189360832880922541u},{271,194646810967718317u},{271,228818792883145782u},{271,270919741928766911u},{271,728557327695058475u},{271,807473247699504957u},{271,886389167703951439u},{271,983619135363438058u},{271,997020956229172577u},{271,999103318326335228u},{271,1112564971543699333u},{271,1270396811552592297u},{271,1614946495399009914u},{271,2038412099249874013u},{271,2727511466942709247u},{271,3229892990798019828u},{271,5455022933885418494u},{271,5957404457740729075u},{271,8153648396999496052u},{271,8656029920854806633u},{271,9905282820060215826u},
{272,113565935458503u},{272,134214287360049u},{272,154862639261595u},{272,227131870917006u},{272,268428574720098u},{272,309725278523190u},{272,454263741834012u},{272,536857149440196u},{272,619450557046380u},{272,805077627834061u},{272,846790524289619u},{272,908527483668024u},{272,970264443046429u},{272,1073714298880392u},{272,1238901114092760u},{272,1404087929305128u},{272,1817054967336048u},{272,2147428597760784u},{272,5843275491811285u},{272,6173649122236021u},{272,7495143643934965u},{272,8816638165633909u},{272,10138132687332853u},{272,10365056461923626u},{272,11459627209031797u},{272,11686550983622570u},{272,14990287287869930u},{272,21824683670955423u},{272,29980574575739860u},{272,36814970958825353u},{272,59961149151479720u},{272,85750316387531975u},{272,98778385955776336u},{272,145711465539011695u},{272,291422931078023390u},{272,317212098314075645u},{272,582845862156046780u},{272,608635029392099035u},{272,792256036637044254u},{272,1165691724312093560u},{272,1191480891548145815u},{272,1217270058784198070u},{272,2382961783096291630u},{272,4765923566192583260u},{272,7174674516524927145u},{272,8076280895291339287u},{272,9531847132385166520u},
{273,111542719533595u},{273,123890111409276u},{273,136237503284957u},{273,148584895160638u},{273,235432830942871u},{273,247780222818552u},{273,260127614694233u},{273,342721022300417u},{273,495560445637104u},{273,685442044600834u},{273,813586684186159u},{273,991120891274208u},{273,1040510458776932u},{273,1119265530859533u},{273,1168655098362257u},{273,1218044665864981u},{273,1499028728786993u},{273,2337310196724514u},{273,2998057457573986u},{273,3836338925511507u},{273,4674620393449028u},{273,5996114915147972u},{273,7672677851023014u},{273,9477385426483381u},{273,9909867733133293u},{273,9920550354399110u},{273,9931232975664927u},{273,9941915596930744u},{273,11992229830295944u},{273,17150063277506395u},{273,23984459660591888u},{273,29142293107802339u},{273,34300126555012790u},{273,42811085873973325u},{273,47968919321183776u},{273,53126752768394227u},{273,63442419662815129u},{273,68600253110025580u},{273,73758086557236031u},{273,80464338300736199u},{273,85622171747946650u},{273,90780005195157101u},{273,101095672089578003u},{273,106253505536788454u},{273,111411338983998905u},{273,121727005878419807u},{273,126884839325630258u},{273,132042672772840709u},{273,222822677967997810u},{273,227980511415208261u},{273,233138344862418712u},{273,238296178309629163u},{273,243454011756839614u},{273,248611845204050065u},{273,466276689724837424u},{273,476592356619258326u},{273,486908023513679228u},{273,932553379449674848u},{273,953184713238516652u},{273,973816047027358456u},{273,1015078714605042064u},{273,1434934903304985429u},{273,1906369426477033304u},{273,2377803949649081179u},{273,2869869806609970858u},{273,3812738852954066608u},{273,4755607899298162358u},{273,7625477705908133216u},{273,9511215798596324716u},{273,9988822629710999825u},{273,9999223757575547263u},
{274,112994815212535u},{274,113928959378238u},{274,114863103543941u},{274,127210495419622u},{274,152839423336687u},{274,178468351253752u},{274,254420990839244u},{274,280049918756309u},{274,977108728788663u},{274,981372414174094u},{274,992055035439911u},{274,3378754799667149u},{274,3430012655501279u},{274,3481270511335409u},{274,5106575591376321u},{274,5209091303044581u},{274,6860025311002558u},{274,8357185751458145u},{274,8562217174794665u},{274,8767248598131185u},{274,10213151182752642u},{274,12069116614047139u},{274,13720050622005116u},{274,15370984629963093u},{274,17124434349589330u},{274,22282267796799781u},{274,27440101244010232u},{274,34248868699178660u},{274,39406702146389111u},{274,44564535593599562u},{274,49722369040810013u},{274,54880202488020464u},{274,60038035935230915u},{274,68497737398357320u},{274,78813404292778222u},{274,89129071187199124u},{274,99444738081620026u},{274,109760404976040928u},{274,120076071870461830u},{274,178258142374398248u},{274,198889476163240052u},{274,262229380114386921u},{274,303492047692070529u},{274,356516284748796496u},{274,397778952326480104u},{274,450803189383206071u},{274,492065856960889679u},{274,660008332440867025u},{274,848582141709686175u},{274,997984266499964188u},{274,998225469025670153u},{274,998761661708247000u},{274,999002864233952965u},{274,999539056916529812u},{274,999780259442235777u},{274,1320016664881734050u},{274,1644140046362646383u},{274,1697164283419372350u},{274,2209861474169103833u},{274,2964156711244380433u},{274,3718451948319657033u},{274,4095599566857295333u},{274,5604190041007848533u},{274,5928313422488760866u},{274,7436903896639314066u},{274,8191199133714590666u},{274,8839445896676415332u},{274,9375666226384231533u},
{275,1671437150291629u},{275,1712443434958933u},{275,1753449719626237u},{275,3424886869917866u},{275,5116827162543147u},{275,5198839731877755u},{275,6849773739835732u},{275,8459701463126405u},{275,8623726601795621u},{275,10233654325086294u},{275,10397679463755510u},{275,12007607187046183u},{275,13699547479671464u},{275,15473500341631353u},{275,22241261512132477u},{275,24015214374092366u},{275,27399094959342928u},{275,29173047821302817u},{275,46256475886224843u},{275,48030428748184732u},{275,54798189918685856u},{275,58346095642605634u},{275,73655570845567771u},{275,77203476569487549u},{275,96060857496369464u},{275,99827925665683507u},{275,99876166170824700u},{275,99924406675965893u},{275,99972647181107086u},{275,132001666488173405u},{275,169716428341937235u},{275,264003332976346810u},{275,339432856683874470u},{275,528006665952693620u},{275,678865713367748940u},{275,799105810376879986u},{275,1056013331905387240u},{275,1357731426735497880u},{275,2134431950461576173u},{275,2737868140121797453u},{275,3643022424612129373u},{275,4849894803932571933u},{275,7286044849224258746u},{275,7867075752233678333u},{275,9118758704855724279u},{275,9699789607865143866u},
{276,295331459624387u},{276,326086173124865u},{276,367092457792169u},{276,652172346249730u},{276,734184915584338u},{276,957755377040943u},{276,1039767946375551u},{276,1121780515710159u},{276,1181325838497548u},{276,1203793085044767u},{276,1691940292625281u},{276,2079535892751102u},{276,3383880585250562u},{276,4159071785502204u},{276,6544190709044519u},{276,8541714032461013u},{276,9987616617082470u},{276,9997819430713081u},{276,26400333297634681u},{276,33943285668387447u},{276,52800666595269362u},{276,67886571336774894u},{276,83196046539737031u},{276,97834810358329353u},{276,105601333190538724u},{276,135773142673549788u},{276,211202666381077448u},{276,271546285347099576u},{276,422405332762154896u},{276,543092570694199152u},{276,746528714243067229u},{276,844810665524309792u},{276,987903190107155741u},{276,1086185141388398304u},{276,1184467092669640867u},{276,1229277665971244253u},{276,2798211759087819581u},{276,3763709662544173629u},{276,4729207566000527677u},{276,7527419325088347258u},{276,9458415132001055354u},
{277,102515711668260u},{277,106223519292277u},{277,109931326916294u},{277,113639134540311u},{277,117346942164328u},{277,130434469249946u},{277,175148561541267u},{277,212447038584554u},{277,219862653832588u},{277,260868938499892u},{277,305583030791213u},{277,350297123082534u},{277,521737876999784u},{277,566451969291105u},{277,611166061582426u},{277,998761661708247u},{277,999643264920715u},{277,1043475753999568u},{277,1088189846290889u},{277,1997523323416494u},{277,7990093293665976u},{277,8079521478248618u},{277,14951762464631569u},{277,15041190649214211u},{277,15130618833796853u},{277,15220047018379495u},{277,22494714835384335u},{277,22673571204549619u},{277,30082381298428422u},{277,30261237667593706u},{277,37759475946055151u},{277,45347142409099238u},{277,52934808872143325u},{277,75518951892110302u},{277,97924238542911995u},{277,105869617744286650u},{277,113099571469000169u},{277,158267857508934123u},{277,188618523361110471u},{277,226199142938000338u},{277,278955095440978379u},{277,377237046722220942u},{277,414817666299110809u},{277,520329571305066891u},{277,792054713021331751u},{277,829635332598221618u},{277,1008877625804635162u},{277,1017538430482670953u},{277,1621690045619553369u},{277,1659270665196443236u},{277,3243380091239106738u},{277,3280960710815996605u},{277,6524340802055103343u},{277,6561921421631993210u},
{278,113290393858221u},{278,158004486149542u},{278,226580787716442u},{278,271294880007763u},{278,408447483141563u},{278,453161575432884u},{278,816894966283126u},{278,861609058574447u},{278,906323150865768u},{278,2954581219093257u},{278,3044009403675899u},{278,3133437588258541u},{278,4498942967076867u},{278,6088018807351798u},{278,7408810093878803u},{278,7766522832209371u},{278,8997885934153734u},{278,10586961774428665u},{278,12176037614703596u},{278,17995771868307468u},{278,19584847708582399u},{278,21173923548857330u},{278,25583438331351555u},{278,28761590011901417u},{278,39169695417164798u},{278,42347847097714660u},{278,67931285429066215u},{278,78339390834329596u},{278,95103799600692701u},{278,100270002824273312u},{278,100345701782375471u},{278,100902902372083948u},{278,101460102961792425u},{278,102017303551500902u},{278,119098162091769325u},{278,135862570858132430u},{278,173443190435022297u},{278,309305761293154727u},{278,346886380870044594u},{278,656192142163199321u},{278,840043438003484999u},{278,877624057580374866u},{278,915204677157264733u},{278,1274803664749508775u},{278,1312384284326398642u},{278,2587187949075907417u},{278,2624768568652797284u},{278,4192113585929097681u},{278,5249537137305594568u},{278,6306960688682091455u},{278,8384227171858195362u},{278,9366489484080912515u},
{279,119869031469239u},{279,144289225836162u},{279,199150267089682u},{279,243864359381003u},{279,573030606902123u},{279,792474771916203u},{279,971331141081487u},{279,1141934917361721u},{279,1146061213804246u},{279,1150187510246771u},{279,2117392354885733u},{279,2645708869496535u},{279,4234784709771466u},{279,5116687666270311u},{279,8469569419542932u},{279,10042140074047763u},{279,10075150445587963u},{279,10216870146770522u},{279,10233375332540622u},{279,13586257085813243u},{279,16939138839085864u},{279,20292020592358485u},{279,20466750665081244u},{279,23819632418353865u},{279,27172514171626486u},{279,30525395924899107u},{279,33878277678171728u},{279,47639264836707730u},{279,54345028343252972u},{279,81867002660324976u},{279,84520964122706561u},{279,95278529673415460u},{279,108690056686505944u},{279,132859149250305327u},{279,146270676263395811u},{279,159682203276486295u},{279,254960732949901755u},{279,509921465899803510u},{279,547502085476693377u},{279,853454965016575483u},{279,1019842931799607020u},{279,1095004170953386754u},{279,1261392137736418291u},{279,1873297896816182503u},{279,2522784275472836582u},{279,3746595793632365006u},{279,4396082172289019085u},{279,5045568550945673164u},{279,6510929275042012859u},{279,8792164344578038170u},
{280,351935923311033u},{280,353586441888043u},{280,529141773899307u},{280,703871846622066u},{280,707172883776086u},{280,881902956498845u},{280,1058283547798614u},{280,1589075840274931u},{280,1763805912997690u},{280,2116567095597228u},{280,2647359388073545u},{280,3527611825995380u},{280,4058404118471697u},{280,4233134191194456u},{280,4763926483670773u},{280,5294718776147090u},{280,7586015944467077u},{280,8116808236943394u},{280,8466268382388912u},{280,8997060674865229u},{280,9527852967341546u},{280,10058645259817863u},{280,15702824181410471u},{280,16233616473886788u},{280,18524913642206775u},{280,19055705934683092u},{280,19586498227159409u},{280,31405648362820942u},{280,31936440655297259u},{280,32467232947773576u},{280,38111411869366184u},{280,50992146589980351u},{280,63872881310594518u},{280,76222823738732368u},{280,88041973874393901u},{280,90165143044299169u},{280,101984293179960702u},{280,113803443315622235u},{280,115926612485527503u},{280,127745762621189036u},{280,140626497341803203u},{280,152445647477464736u},{280,203968586359921404u},{280,255491525242378072u},{280,344595083701724607u},{280,407937172719842808u},{280,471279261737961009u},{280,752532256421567415u},{280,815874345439685616u},{280,879216434457803817u},{280,942558523475922018u},{280,1005900612494040219u},{280,1021966100969512288u},{280,1038031589444984357u},{280,1631748690879371232u},{280,1695090779897489433u},{280,1758432868915607634u},{280,1821774957933725835u},{280,1885117046951844036u},{280,3390181559794978866u},{280,3453523648813097067u},{280,3516865737831215268u},{280,3580207826849333469u},{280,6907047297626194134u},{280,6970389386644312335u},{280,7033731475662430536u},{280,7097073564680548737u},
{281,175060176438161u},{281,175720383868965u},{281,176380591299769u},{281,177040798730573u},{281,177701006161377u},{281,351440767737930u},{281,352761182599538u},{281,354081597461146u},{281,529471877614709u},{281,705522365199076u},{281,880252437921835u},{281,885534097368267u},{281,1058943755229418u},{281,1411044730398152u},{281,2117887510458836u},{281,2822089460796304u},{281,3704982728441355u},{281,4235775020917672u},{281,6174971214068925u},{281,7409965456882710u},{281,8471550041835344u},{281,9349161650033963u},{281,10410746234986597u},{281,12349942428137850u},{281,14819930913765420u},{281,20821492469973194u},{281,22760688663124447u},{281,33702227190587361u},{281,45521377326248894u},{281,98983512401856815u},{281,134624935785595429u},{281,150506451284313483u},{281,301012902568626966u},{281,364354991586745167u},{281,602025805137253932u},{281,665367894155372133u},{281,728709983173490334u},{281,792052072191608535u},{281,1330735788310744266u},{281,1394077877328862467u},{281,1457419966346980668u},{281,2724813665639606733u},{281,2788155754657724934u},{281,2851497843675843135u},{281,5576311509315449868u},{281,5639653598333568069u},{281,5702995687351686270u},
{282,103781711744369u},{282,106422541467585u},{282,140576307095172u},{282,143217136818388u},{282,176050487584367u},{282,212845082935170u},{282,281152614190344u},{282,317947209541147u},{282,352100975168734u},{282,388895570519537u},{282,599099823731491u},{282,635894419082294u},{282,704201950337468u},{282,740996545688271u},{282,777791141039074u},{282,1198199647462982u},{282,1234994242813785u},{282,1271788838164588u},{282,1481993091376542u},{282,2469988485627570u},{282,2506783080978373u},{282,2963986182753084u},{282,3000780778103887u},{282,4939976971255140u},{282,4976771566605943u},{282,5927972365506168u},{282,5964766960856971u},{282,9879953942510280u},{282,9916748537861083u},{282,10027132323913492u},{282,10063926919264295u},{282,10100721514615098u},{282,11855944731012336u},{282,11892739326363139u},{282,19796702480371363u},{282,19833497075722166u},{282,23748684057375475u},{282,23785478652726278u},{282,39593404960742726u},{282,39630199556093529u},{282,47497368114750950u},{282,47534162710101753u},{282,79186809921485452u},{282,79223604516836255u},{282,94810763252747885u},{282,94847557848098688u},{282,94884352443449491u},{282,95068325420203506u},{282,95105120015554309u},{282,95141914610905112u},{282,158373619842970904u},{282,158410414438321707u},{282,158447209033672510u},{282,253478739858525213u},{282,316820828876643414u},{282,506957479717050426u},{282,570299568735168627u},{282,633641657753286828u},{282,1013914959434100852u},{282,1077257048452219053u},{282,1140599137470337254u},{282,1203941226488455455u},{282,1267283315506573656u},{282,2217856185922556307u},{282,2281198274940674508u},{282,4435712371845112614u},{282,4499054460863230815u},{282,4562396549881349016u},{282,6019853310823680487u},{282,8998108921726461630u},
{283,101968535092962u},{283,105102126605977u},{283,121932628524871u},{283,125066220037886u},{283,133481470997333u},{283,170276066348136u},{283,210204253211954u},{283,246998848562757u},{283,266962941994666u},{283,303757537345469u},{283,340552132696272u},{283,457203101774711u},{283,493997697125514u},{283,570720479340135u},{283,607515074690938u},{283,644309670041741u},{283,951200798900225u},{283,987995394251028u},{283,1000529760303088u},{283,1024789989601831u},{283,1037324355653891u},{283,1141440958680270u},{283,1178235554031073u},{283,1215030149381876u},{283,1939196193151253u},{283,2012785383852859u},{283,2356471108062146u},{283,2393265703412949u},{283,3915186981653309u},{283,3951981577004112u},{283,3988776172354915u},{283,4712942216124292u},{283,4749736811475095u},{283,4786531406825898u},{283,7903963154008224u},{283,7940757749359027u},{283,9315500646196175u},{283,9352295241546978u},{283,9389089836897781u},{283,9536268218300993u},{283,9573062813651796u},{283,9609857409002599u},{283,15807926308016448u},{283,15844720903367251u},{283,15881515498718054u},{283,18962152650549577u},{283,18998947245900380u},{283,19035741841251183u},{283,31652647211383699u},{283,31689441806734502u},{283,31726236402085305u},{283,37997894491800760u},{283,38071483682502366u},{283,50651594457284079u},{283,50725183647985685u},{283,63378883613469004u},{283,75995788983601520u},{283,76142967365004732u},{283,88723078139786445u},{283,101303188914568158u},{283,101450367295971370u},{283,114030478070753083u},{283,126757767226938008u},{283,164718867123387965u},{283,177446156279572890u},{283,240788245297691091u},{283,253515534453876016u},{283,354892312559145780u},{283,418234401577263981u},{283,481576490595382182u},{283,773126714136409761u},{283,836468803154527962u},{283,899810892172646163u},{283,963152981190764364u},{283,1014062137815504064u},{283,1026495070208882565u},{283,1038928002602261066u},{283,1064971294440243764u},{283,1178633826557488817u},{283,1305318004593725219u},{283,1672937606309055924u},{283,1799621784345292326u},{283,1926305962381528728u},{283,2357267653114977634u},{283,2978255610902781143u},{283,3599243568690584652u},{283,4220231526478388161u},{283,4714535306229955268u},{283,5956511221805562286u},{283,7198487137381169304u},{283,8440463052956776322u},{283,8693831409029249126u},{283,9061451010744579831u},{283,9429070612459910536u},{283,9796690214175241241u},
{284,103489884723776u},{284,114144095868027u},{284,150938691218830u},{284,190240159780045u},{284,228288191736054u},{284,265082787086857u},{284,380480319560090u},{284,417274914910893u},{284,456576383472108u},{284,493370978822911u},{284,760960639120180u},{284,797755234470983u},{284,839563576242610u},{284,876358171593413u},{284,913152766944216u},{284,986741957645822u},{284,1558715873591163u},{284,1595510468941966u},{284,1863100129239235u},{284,1899894724590038u},{284,1936689319940841u},{284,3154226342533129u},{284,3191020937883932u},{284,3762994853829273u},{284,3799789449180076u},{284,3836584044530879u},{284,6308452685066258u},{284,6345247280417061u},{284,7525989707658546u},{284,7599578898360152u},{284,7673168089061758u},{284,10071447538895531u},{284,10145036729597137u},{284,10218625920298743u},{284,12616905370132516u},{284,12690494560834122u},{284,15199157796720304u},{284,17744615627957289u},{284,20290073459194274u},{284,22835531290431259u},{284,27852857762203623u},{284,30398315593440608u},{284,32943773424677593u},{284,35489231255914578u},{284,38034689087151563u},{284,40580146918388548u},{284,60796631186881216u},{284,65887546849355186u},{284,70978462511829156u},{284,76069378174303126u},{284,101523956486672976u},{284,103775057555103537u},{284,106614872149146946u},{284,131775093698710372u},{284,141956925023658312u},{284,205299014041776513u},{284,283913850047316624u},{284,337074107740486885u},{284,410598028083553026u},{284,821196056167106052u},{284,907152908903550694u},{284,915083639160068073u},{284,980676829246616835u},{284,988607559503134214u},{284,5188475423331626495u},{284,5335523264017758777u},{284,7525379413796708249u},{284,7819475095168972813u},{284,8113570776541237377u},
{285,115397532473233u},{285,120750952975064u},{285,152192127824036u},{285,157545548325867u},{285,167912715248522u},{285,204707310599325u},{285,304384255648072u},{285,372620025847847u},{285,409414621198650u},{285,608768511296144u},{285,645563106646947u},{285,708445456344891u},{285,745240051695694u},{285,782034647046497u},{285,818829242397300u},{285,1217537022592288u},{285,1254331617943091u},{285,1291126213293894u},{285,1327920808644697u},{285,1490480103391388u},{285,1999571669638785u},{285,2508663235886182u},{285,10034652943544728u},{285,10329009706351152u},{285,10543744509792125u},{285,63342089018118201u},{285,67414821548097377u},{285,71487554078076553u},{285,75560286608055729u},{285,85742117933003669u},{285,85956852736444642u},{285,93887582992962021u},{285,94102317796402994u},{285,126684178036236402u},{285,134829643096194754u},{285,142975108156153106u},{285,151120573216111458u},{285,212426295969240071u},{285,269659286192389508u},{285,351328671595414001u},{285,702657343190828002u},{285,890647243980193017u},{285,1037695084666325299u},{285,1184742925352457581u},{285,1446256746484888737u},{285,2075390169332650598u},{285,2704523592180412459u},{285,4150780338665301196u},{285,7966522935855105095u},{285,8301560677330602392u},{285,8636598418806099689u},
{286,100883498781516u},{286,117470965857764u},{286,118677519590533u},{286,163765848479460u},{286,200560443830263u},{286,236148485448297u},{286,327531696958920u},{286,399914333927757u},{286,472296970896594u},{286,655063393917840u},{286,727446030886677u},{286,799828667855514u},{286,872211304824351u},{286,1016976578762025u},{286,1019389686227563u},{286,1090565769463631u},{286,1454892061773354u},{286,1599657335711028u},{286,1963983628020751u},{286,2108748901958425u},{286,2181131538927262u},{286,2545457831236985u},{286,3199314671422056u},{286,3563640963731779u},{286,4217497803916850u},{286,4726589370164247u},{286,5090915662473970u},{286,6762955635153835u},{286,7127281927463558u},{286,8724526155709048u},{286,9453178740328494u},{286,10181831324947940u},{286,11853871297627805u},{286,15926603827606981u},{286,22035702622575745u},{286,23707742595255610u},{286,31853207655213962u},{286,33525247627893827u},{286,45743445217831355u},{286,47415485190511220u},{286,63706415310427924u},{286,65378455283107789u},{286,89814850462982845u},{286,91486890435662710u},{286,93158930408342575u},{286,94830970381022440u},{286,129084870593535713u},{286,130756910566215578u},{286,148719880658812147u},{286,186317860816685150u},{286,223915840974558153u},{286,258169741187071426u},{286,297439761317624294u},{286,406889621845883573u},{286,482085582161629579u},{286,629133422847761861u},{286,779525343479253873u},{286,813779243691767146u},{286,964171164323259158u},{286,1032678964748285704u},{286,1080309184742237897u},{286,1224012945483010449u},{286,1258266845695523722u},{286,1593304587171021019u},{286,1928342328646518316u},{286,1962596228859031589u},{286,3186609174342042038u},{286,3521646915817539335u},{286,4260230199193560475u},{286,5299597323832565639u},{286,6373218348684084076u},{286,8116914856486597107u},{286,9259043681763142090u},{286,9525573622813612841u},
{287,105557571121333u},{287,106764124854102u},{287,116053529896693u},{287,131012678783568u},{287,203395315752405u},{287,247066208680261u},{287,262025357567136u},{287,406790631504810u},{287,421749780391685u},{287,494132417360522u},{287,509091566247397u},{287,524050715134272u},{287,843499560783370u},{287,958346536947294u},{287,988264834721044u},{287,1018183132494794u},{287,1352591127030767u},{287,1686999121566740u},{287,2036366264989588u},{287,2370774259525561u},{287,2705182254061534u},{287,3039590248597507u},{287,3738324535443203u},{287,4072732529979176u},{287,4407140524515149u},{287,4741548519051122u},{287,5075956513587095u},{287,5410364508123068u},{287,7142241076350433u},{287,7476649070886406u},{287,7811057065422379u},{287,9483097038102244u},{287,9817505032638217u},{287,10151913027174190u},{287,10486321021710163u},{287,10820729016246136u},{287,17294154103524623u},{287,17628562098060596u},{287,17962970092596569u},{287,18631786081668515u},{287,18966194076204488u},{287,19300602070740461u},{287,35925940185193138u},{287,36594756174265084u},{287,37263572163337030u},{287,37932388152408976u},{287,73189512348530168u},{287,74527144326674060u},{287,106105780582899549u},{287,107443412561043441u},{287,108781044539187333u},{287,112125124484547063u},{287,149054288653348120u},{287,185983452822149177u},{287,258504149181607399u},{287,332362477519209513u},{287,556612726488303639u},{287,704329383163507867u},{287,852046039838712095u},{287,897000995876376504u},{287,925904368176314209u},{287,954807740476251914u},{287,1408658766327015734u},{287,1704092079677424190u},{287,1851808736352628418u},{287,2334563134503329943u},{287,2817317532654031468u},{287,3408184159354848380u},{287,3595505244155141449u},{287,4669126269006659886u},{287,5742747293858178323u},{287,6708256090159581373u},{287,7191010488310282898u},{287,7299122716860398285u},{287,9230140309463204385u},{287,9338252538013319772u},
{288,156732593047174u},{288,159724422824549u},{288,162716252601924u},{288,325432505203848u},{288,331416164758598u},{288,337399824313348u},{288,352358973200223u},{288,674799648626696u},{288,704717946400446u},{288,991256664498419u},{288,1015191302717419u},{288,1039125940936419u},{288,1349599297253392u},{288,1695974610898865u},{288,2030382605434838u},{288,2364790599970811u},{288,2699198594506784u},{288,3057541227261757u},{288,3391949221797730u},{288,3726357216333703u},{288,4060765210869676u},{288,4395173205405649u},{288,6783898443595460u},{288,7452714432667406u},{288,8121530421739352u},{288,10127978388955190u},{288,10558124936367163u},{288,10796794378027136u},{288,14905428865334812u},{288,29810857730669624u},{288,59621715461339248u},{288,82314266753877439u},{288,91200351717564737u},{288,96120733082728332u},{288,96981026177552278u},{288,119243430922678496u},{288,125024105382666037u},{288,170409207967742419u},{288,244267536305344533u},{288,340818415935484838u},{288,391984192980548761u},{288,488535072610689066u},{288,585085952240829371u},{288,783968385961097522u},{288,868957916671262745u},{288,977070145221378132u},{288,1170171904481658742u},{288,1363273663741939352u},{288,1459824543372079657u},{288,1846028061892640877u},{288,2726547327483878704u},{288,2919649086744159314u},{288,3692056123785281754u},{288,4572575389376519581u},{288,5731185944938203241u},{288,5839298173488318628u},{288,7384112247570563508u},{288,7492224476120678895u},{288,9145150778753039162u},
{289,320047211604573u},{289,329621066892173u},{289,339194922179773u},{289,348768777467373u},{289,358342632754973u},{289,659242133784346u},{289,678389844359546u},{289,697537554934746u},{289,993650128320319u},{289,1012797838895519u},{289,1031945549470719u},{289,1051093260045919u},{289,1070240970621119u},{289,1356779688719092u},{289,1672039972679865u},{289,1710335393830265u},{289,2025595677791038u},{289,2360003672327011u},{289,2713559377438184u},{289,3067115082549357u},{289,4051191355582076u},{289,4720007344654022u},{289,5427118754876368u},{289,7118306438131433u},{289,8886084963687298u},{289,9440014689308044u},{289,9870161236720017u},{289,10854237509752736u},{289,11838313782785455u},{289,14236612876262866u},{289,22692551292538191u},{289,28473225752525732u},{289,29457302025558451u},{289,45385102585076382u},{289,51165777045063923u},{289,64695278511104443u},{289,71460029244124703u},{289,83021378164099785u},{289,90770205170152764u},{289,102331554090127846u},{289,121641730016155907u},{289,173791583334252549u},{289,212411935186308671u},{289,251032287038364793u},{289,347583166668505098u},{289,424823870372617342u},{289,502064574076729586u},{289,695166333337010196u},{289,803278561887125583u},{289,957759969295350071u},{289,1004129148153459172u},{289,1050498327011568273u},{289,1065872197845465458u},{289,1112241376703574559u},{289,1189482080407686803u},{289,1498444895224135779u},{289,1807407710040584755u},{289,2116370524857033731u},{289,2270851932265258219u},{289,2378964160815373606u},{289,2996889790448271558u},{289,3614815420081169510u},{289,4340853278264182849u},{289,4649816093080631825u},{289,5993779580896543116u},{289,7337743068712454407u},{289,8573594327978250311u},{289,9083407729061032876u},{289,9191519957611148263u},{289,9299632186161263650u},{289,9407744414711379037u},{289,9515856643261494424u},
{290,326748910305893u},{290,334407994535973u},{290,342067078766053u},{290,349726162996133u},{290,668815989071946u},{290,684134157532106u},{290,907485430731919u},{290,938121767652239u},{290,968758104572559u},{290,1030030778413199u},{290,1337631978143892u},{290,1368268315064212u},{290,1675869514794905u},{290,1706505851715225u},{290,2367662756557091u},{290,3044137829859117u},{290,4735325513114182u},{290,6088275659718234u},{290,7133624606591593u},{290,9470651026228364u},{290,9839524899799697u},{290,12176551319436468u},{290,12545425193007801u},{290,16604275632819957u},{290,22016076219236165u},{290,27427876805652373u},{290,30133777098860477u},{290,33208551265639914u},{290,44032152438472330u},{290,47106926605251767u},{290,63342328364500391u},{290,66417102531279828u},{290,91139079043724097u},{290,109711507222609492u},{290,129759430895780219u},{290,179203383920668757u},{290,182278158087448194u},{290,256444087624781001u},{290,259518861791560438u},{290,361481542008116951u},{290,621000403799677389u},{290,722963084016233902u},{290,824925764232790415u},{290,917664121949008617u},{290,929963218616126365u},{290,942262315283244113u},{290,1242000807599354778u},{290,1445926168032467804u},{290,1757963757015696217u},
{291,329046635574917u},{291,335173902958981u},{291,341301170343045u},{291,347428437727109u},{291,670347805917962u},{291,682602340686090u},{291,996330807800847u},{291,1020839877337103u},{291,1045348946873359u},{291,1340695611835924u},{291,1365204681372180u},{291,2041679754674206u},{291,2361535489173027u},{291,4403215243847233u},{291,5731656320915029u},{291,8486574753195645u},{291,8806430487694466u},{291,9126286222193287u},{291,13898375339611853u},{291,17612860975388932u},{291,24721976512444269u},{291,35225721950777864u},{291,52518727191667975u},{291,73526218068335165u},{291,92738357716218202u},{291,93254286007007071u},{291,98887906049777076u},{291,105037454383335950u},{291,122970171093223703u},{291,164985152846558083u},
{292,112011398600962u},{292,124265933369090u},{292,136520468137218u},{292,154902270289410u},{292,189462533745667u},{292,213971603281923u},{292,248531866738180u},{292,273040936274436u},{292,344364804035077u},{292,427943206563846u},{292,462503470020103u},{292,546081872548872u},{292,605151205541385u},{292,688729608070154u},{292,925006940040206u},{292,1008585342568975u},{292,1023043218185230u},{292,1077705869481489u},{292,1092163745097744u},{292,1106621620713999u},{292,1210302411082770u},{292,1377459216140308u},{292,1697314950639129u},{292,2017170685137950u},{292,2184327490195488u},{292,2420604822165540u},{292,2907617361721899u},{292,3394629901278258u},{292,3881642440834617u},{292,4688510714889797u},{292,5815234723443798u},{292,6789259802556516u},{292,7915983811110517u},{292,8890008890223235u},{292,9071623570897028u},{292,9377021429779594u},{292,9682419288662160u},{292,9987817147544726u},{292,10503745438333595u},{292,14705243613667033u},{292,15831967622221034u},
{293,102304321818523u},{293,105195896941774u},{293,108087472065025u},{293,118138665985026u},{293,121030241108277u},{293,123921816231528u},{293,198825493390544u},{293,204608643637046u},{293,239168907093303u},{293,242060482216554u},{293,244952057339805u},{293,403434137027590u},{293,406325712150841u},{293,484120964433108u},{293,648386194367395u},{293,806868274055180u},{293,945109327880208u},{293,956675628373212u},{293,968241928866216u},{293,979808229359220u},{293,991374529852224u},{293,1132507158800503u},{293,1613736548110360u},{293,1778001778044647u},
{294,129677238873479u},{294,161373654811036u},
};
static const hard_decimal hard_for_float[] = {
{-62,70064923216240854u},{-62,70064923216240855u},{-62,70064923216240856u},
{-61,21019476964872255u},{-61,21019476964872256u},{-61,21019476964872257u},{-61,35032461608120426u},{-61,35032461608120427u},{-61,49045446251368597u},{-61,49045446251368598u},{-61,63058430894616768u},{-61,77071415537864939u},
{-60,10509738482436127u},{-60,10509738482436128u},{-60,10509738482436129u},{-60,11911036946760945u},{-60,28726618518658750u},{-60,30127916982983567u},{-60,49746095483531006u},{-60,69364273984078445u},{-60,88982452484625884u},{-60,90383750948950701u},{-60,91785049413275518u},
{-59,11000192944949814u},{-59,13382400334302003u},{-59,14363309259329375u},{-59,16745516648681564u},{-59,22490840352413314u},{-59,24873047741765503u},{-59,30618371445497253u},{-59,44491226242312942u},{-59,50236549946044692u},{-59,58364081039128631u},{-59,64109404742860381u},{-59,72236935835944320u},{-59,77982259539676070u},{-59,91855114336491759u},
{-58,10096355435460307u},{-58,10670887805833482u},{-58,11245420176206657u},{-58,22245613121156471u},{-58,22820145491529646u},{-58,23394677861902821u},{-58,37842065029091685u},{-58,38416597399464860u},{-58,52863984566653724u},{-58,53438516937026899u},{-58,68460436474588938u},{-58,83482356012150977u},{-58,99078807920086191u},
{-57,700649232163u},{-57,700649232164u},{-57,700649232165u},{-57,10720633901317013u},{-57,10835540375391648u},{-57,10950446849466283u},{-57,11410072745764823u},{-57,18978485751583160u},{-57,19093392225657795u},{-57,26661805231476132u},{-57,34230218237294469u},{-57,41798631243112806u},{-57,57050363728824115u},{-57,79870509220353761u},{-57,87438922226172098u},{-57,94892428757915800u},{-57,95007335231990435u},{-57,95122241706065070u},{-57,95237148180139705u},
{-56,210194769648u},{-56,210194769649u},{-56,350324616081u},{-56,490454462514u},{-56,630584308946u},{-56,770714155379u},{-56,910844001811u},{-56,13307921320923139u},{-56,17103618471239771u},{-56,17126599766054698u},{-56,24717994066687962u},{-56,36128066812452785u},{-56,51333836708534240u},{-56,62743909454299063u},{-56,74153982200063886u},{-56,77949679350380518u},{-56,89359752096145341u},
{-55,105097384823u},{-55,105097384824u},{-55,105097384825u},{-55,133123354111u},{-55,147136338754u},{-55,189175292684u},{-55,203188277327u},{-55,259240215900u},{-55,315292154473u},{-55,371344093046u},{-55,595551847338u},{-55,651603785911u},{-55,707655724484u},{-55,931863478776u},{-55,987915417349u},{-55,12358997033343981u},{-55,15400151012560272u},{-55,22625764375050829u},{-55,25666918354267120u},{-55,32892531716757677u},{-55,40118145079248234u},{-55,43159299058464525u},{-55,50384912420955082u},{-55,60651679762661930u},{-55,78144060466859335u},{-55,88410827808566183u},
{-54,700649233u},{-54,700649234u},{-54,700649235u},{-54,133824003343u},{-54,138027898736u},{-54,245927880489u},{-54,301979819062u},{-54,358031757635u},{-54,465931739388u},{-54,685935598287u},{-54,849887518613u},{-54,10969890566308022u},{-54,11198551647119617u},{-54,11427212727931212u},{-54,18195503928798579u},{-54,21693980069638060u},{-54,39889483998436639u},{-54,43387960139276120u},{-54,46886436280115601u},{-54,79778967996873278u},{-54,83277444137712759u},{-54,86775920278552240u},{-54,96585365458635898u},{-54,97500009781882278u},
{-53,210194769u},{-53,210194770u},{-53,350324616u},{-53,490454462u},{-53,490454463u},{-53,630584309u},{-53,770714155u},{-53,910844002u},{-53,150989909531u},{-53,156174713849u},{-53,227781065376u},{-53,232965869694u},{-53,10358231774031486u},{-53,10449696206356124u},{-53,13856707914870967u},{-53,13948172347195605u},{-53,17355184055710448u},{-53,24306404121227091u},{-53,34710368111420896u},{-53,48612808242454182u},{-53,52019819950969025u},{-53,69420736222841792u},{-53,79824700213035597u},{-53,86638723630065283u},{-53,97225616484908364u},
{-52,7006493u},{-52,7006494u},{-52,7006495u},{-52,105097384u},{-52,105097385u},{-52,105097386u},{-52,133123354u},{-52,175162308u},{-52,217201262u},{-52,259240216u},{-52,371344093u},{-52,413383047u},{-52,567525878u},{-52,609564832u},{-52,805746617u},{-52,917850494u},{-52,959889448u},{-52,101124703678u},{-52,103717105837u},{-52,111298130529u},{-52,113890532688u},{-52,930469186804u},{-52,945827417973u},{-52,961185649142u},{-52,10403963990193805u},{-52,11158537877756484u},{-52,14565549586271327u},{-52,20807927980387610u},{-52,21562501867950289u},{-52,29131099172542654u},{-52,29885673060105333u},{-52,34047258656182855u},{-52,41615855960775220u},{-52,50693601040492943u},{-52,58262198345085308u},{-52,83231711921550440u},{-52,92309457001268163u},
{-51,2101947u},{-51,2101948u},{-51,2101949u},{-51,3503246u},{-51,4904544u},{-51,4904545u},{-51,6305843u},{-51,9108440u},{-51,108600631u},{-51,147836988u},{-51,304782416u},{-51,344018773u},{-51,461727844u},{-51,500964201u},{-51,540200558u},{-51,657909629u},{-51,697145986u},{-51,736382343u},{-51,775618700u},{-51,814855057u},{-51,114548442317u},{-51,129906673486u},{-51,145264904655u},{-51,160623135824u},{-51,175981366993u},{-51,420436482796u},{-51,435794713965u},{-51,710966292106u},{-51,726324523275u},{-51,741682754444u},{-51,970779639078u},{-51,986137870247u},{-51,11346038428198875u},{-51,11350610113991990u},{-51,11355181799785105u},{-51,13618903462473142u},{-51,16646342384310088u},{-51,19673781306147034u},{-51,27237806924946284u},{-51,33292684768620176u},{-51,45397868770174845u},{-51,48425307692011791u},{-51,66585369537240352u},{-51,72635675695121129u},{-51,90795737540349690u},{-51,96814041897678662u},{-51,96832328640851122u},{-51,96850615384023582u},{-51,96868902127196042u},{-51,96887188870368502u},
{-50,1050972u},{-50,1050973u},{-50,1050974u},{-50,1050975u},{-50,1751623u},{-50,1891753u},{-50,2732532u},{-50,4554220u},{-50,6375908u},{-50,8197596u},{-50,9038375u},{-50,9178505u},{-50,9318635u},{-50,9879154u},{-50,114976539u},{-50,116798227u},{-50,193449253u},{-50,309336636u},{-50,464460376u},{-50,580347759u},{-50,696235142u},{-50,967246265u},{-50,109364548843u},{-50,123059298605u},{-50,138417529774u},{-50,384536126984u},{-50,413589107915u},{-50,442642088846u},{-50,471695069777u},{-50,500748050708u},{-50,529801031639u},{-50,12105184001554669u},{-50,12107012675871915u},{-50,18159147508069938u},{-50,30264331509624607u},{-50,36318295016139876u},{-50,42370429848337899u},{-50,54478356861368437u},{-50,72636590032279752u},{-50,78690553538795021u},{-50,84740859696675798u},
{-49,1352253u},{-49,1366266u},{-49,1380279u},{-49,2277110u},{-49,2291123u},{-49,3187954u},{-49,3201967u},{-49,5023655u},{-49,5934499u},{-49,6845343u},{-49,7756187u},{-49,8667031u},{-49,9577875u},{-49,100830431u},{-49,108131196u},{-49,109042040u},{-49,154668318u},{-49,170180692u},{-49,185693066u},{-49,201205440u},{-49,216717814u},{-49,363629945u},{-49,379142319u},{-49,557079198u},{-49,735016077u},{-49,750528451u},{-49,928465330u},{-49,943977704u},{-49,959490078u},{-49,105109120699u},{-49,109550241909u},{-49,113991363119u},{-49,138603222840u},{-49,167656203771u},{-49,221321044423u},{-49,248153464749u},{-49,277206445680u},{-49,306259426611u},{-49,442642088846u},{-49,554412891360u},{-49,748901515457u},{-49,952272381974u},{-49,972443120485u},{-49,992613858996u},{-49,12104269664396046u},{-49,13317256774879795u},{-49,18158233170911315u},{-49,19371220281395064u},{-49,25421526439275841u},{-49,26634513549759590u},{-49,44792746720670905u},{-49,53269027099519180u},{-49,59319333257399957u},{-49,66582626525764483u},{-49,89585493441341810u},
{-48,1044668u},{-48,1138555u},{-48,1232442u},{-48,1326329u},{-48,1687864u},{-48,2143286u},{-48,2692595u},{-48,3148017u},{-48,4608170u},{-48,6068323u},{-48,9444051u},{-48,125331434u},{-48,133087621u},{-48,165572522u},{-48,278539599u},{-48,351265588u},{-48,536958654u},{-48,609684643u},{-48,722651720u},{-48,795377709u},{-48,868103698u},{-48,908344786u},{-48,981070775u},{-48,110882578272u},{-48,138159110719u},{-48,165435643166u},{-48,194488624097u},{-48,221765156544u},{-48,249041688991u},{-48,276318221438u},{-48,388977248194u},{-48,416253780641u},{-48,443530313088u},{-48,470806845535u},{-48,498083377982u},{-48,777954496388u},{-48,832507561282u},{-48,887060626176u},{-48,941613691070u},{-48,996166755964u},{-48,10653805419903836u},{-48,14526586536729052u},{-48,17917098688268362u},{-48,21307610839807672u},{-48,35834197376536724u},{-48,42615221679615344u},{-48,71668394753073448u},{-48,94671261668650775u},{-48,99581727688737643u},{-48,99727771106883804u},
{-47,1071643u},{-47,1382451u},{-47,1765566u},{-47,2304085u},{-47,3225719u},{-47,4147353u},{-47,8217004u},{-47,9138638u},{-47,9521753u},{-47,9677157u},{-47,113427894u},{-47,123948983u},{-47,134470072u},{-47,175632794u},{-47,268479327u},{-47,320163138u},{-47,371846949u},{-47,516377293u},{-47,568061104u},{-47,764275259u},{-47,960489414u},{-47,121437901554u},{-47,146101445086u},{-47,148714434001u},{-47,188322738214u},{-47,294815879087u},{-47,376645476428u},{-47,537691682195u},{-47,753290952856u},{-47,805231028835u},{-47,13509432891267259u},{-47,16221842612498707u},{-47,18934252333730155u},{-47,23002866915577327u},{-47,32443685224997414u},{-47,37868504667460310u},{-47,55446552140574741u},{-47,75737009334920620u},{-47,79753008201877811u},{-47,89193826511297898u},{-47,92011467662309308u},
{-46,1190354u},{-46,1651171u},{-46,1727794u},{-46,2649428u},{-46,3110245u},{-46,3571062u},{-46,5030136u},{-46,5490953u},{-46,6950027u},{-46,7410844u},{-46,8869918u},{-46,9330735u},{-46,108397758u},{-46,114618248u},{-46,120838738u},{-46,160081569u},{-46,199324400u},{-46,241677476u},{-46,280920307u},{-46,320163138u},{-46,483354952u},{-46,561840614u},{-46,848981411u},{-46,927467073u},{-46,964790013u},{-46,966709904u},{-46,968629795u},{-46,104402749741u},{-46,105447945307u},{-46,106493140873u},{-46,107538336439u},{-46,108583532005u},{-46,109628727571u},{-46,161046205767u},{-46,215076672878u},{-46,268061944423u},{-46,322092411534u},{-46,376122878645u},{-46,430153345756u},{-46,536123888846u},{-46,644184823068u},{-46,752245757290u},{-46,860306691512u},{-46,972548407998u},{-46,989271537054u},{-46,14583873636781842u},{-46,14865637751882983u},{-46,15147401866984124u},{-46,15429165982085265u},{-46,15710930097186406u},{-46,19726928964143597u},{-46,20290457194345879u},{-46,29731275503765966u},{-46,30294803733968248u},{-46,40580914388691758u},{-46,50021732698111845u},{-46,60589607467936496u},{-46,81161828777383516u},{-46,90602647086803603u},
{-45,1163482u},{-45,1217226u},{-45,1270970u},{-45,1324714u},{-45,1839275u},{-45,1893019u},{-45,2461324u},{-45,2515068u},{-45,8735558u},{-45,9357607u},{-45,9979656u},{-45,122704885u},{-45,159459520u},{-45,203678743u},{-45,360650067u},{-45,814714972u},{-45,836540431u},{-45,898177026u},{-45,920002485u},{-45,138806901583u},{-45,150449151458u},{-45,162091401333u},{-45,204479618569u},{-45,300898302916u},{-45,408959237138u},{-45,505377921485u},{-45,601796605832u},{-45,698215290179u},{-45,817918474276u},{-45,867768159123u},{-45,960906158123u},{-45,10004346539622369u},{-45,11216276325263648u},{-45,12343332785668212u},{-45,17669706833198895u},{-45,20008693079244738u},{-45,22347679325290581u},{-45,25898595356977703u},{-45,30576567849069389u},{-45,40017386158489476u},{-45,44695358650581162u},{-45,70593954007558865u},{-45,98831535610582411u},
{-44,1003340u},{-44,1117001u},{-44,1143873u},{-44,1371195u},{-44,1993244u},{-44,2742390u},{-44,3364439u},{-44,3986488u},{-44,4608537u},{-44,6728878u},{-44,7972976u},{-44,9217074u},{-44,127567616u},{-44,139894935u},{-44,184000497u},{-44,267462551u},{-44,689521891u},{-44,831791361u},{-44,974060831u},{-44,101075584297u},{-44,110389384197u},{-44,119703184097u},{-44,202151168594u},{-44,289256053041u},{-44,307883652841u},{-44,404302337188u},{-44,510034821435u},{-44,615767305682u},{-44,702872190129u},{-44,808604674376u},{-44,914337158623u},{-44,14118790801511773u},{-44,14135765466559116u},{-44,28237581603023546u},{-44,28254556268070889u},{-44,56475163206047092u},{-44,75305875829745237u},{-44,94119613788396039u},{-44,94187512448585411u},
{-43,1096956u},{-43,1391240u},{-43,1571863u},{-43,1866147u},{-43,2193912u},{-43,2668819u},{-43,3143726u},{-43,3732294u},{-43,3912917u},{-43,4387824u},{-43,4862731u},{-43,7825834u},{-43,8300741u},{-43,8775648u},{-43,101488257u},{-43,111915948u},{-43,115715204u},{-43,128042523u},{-43,156496417u},{-43,184950311u},{-43,266512737u},{-43,323420525u},{-43,380328313u},{-43,522597783u},{-43,636413359u},{-43,760656626u},{-43,874472202u},{-43,982629420u},{-43,993057111u},{-43,102006964287u},{-43,109458004207u},{-43,116909044127u},{-43,189111848734u},{-43,204013928574u},{-43,218916008414u},{-43,302295372901u},{-43,408027857148u},{-43,483956181715u},{-43,498858261555u},{-43,604590745802u},{-43,710323230049u},{-43,816055714296u},{-43,986373120174u},{-43,989904070105u},{-43,994185573179u},{-43,997716523110u},{-43,11281452909171544u},{-43,11315402239266230u},{-43,15047595433911173u},{-43,15081544764005859u},{-43,26329048343082717u},{-43,30095190867822346u},{-43,33895282722656661u},{-43,41427567772135919u},{-43,48959852821615177u},{-43,67790565445313322u},{-43,79021094359342837u},{-43,82855135544271838u},{-43,94085664458301353u},{-43,97919705643230354u},
{-42,1063475u},{-42,1112992u},{-42,1162509u},{-42,1212026u},{-42,1850111u},{-42,2325018u},{-42,3700222u},{-42,5025909u},{-42,5975723u},{-42,6826503u},{-42,7400444u},{-42,8726131u},{-42,129368210u},{-42,150045787u},{-42,206953575u},{-42,258736420u},{-42,300091574u},{-42,351874419u},{-42,827814300u},{-42,848669682u},{-42,920952299u},{-42,941807681u},{-42,111693316183u},{-42,193582472686u},{-42,199543304622u},{-42,293354124997u},{-42,317197452741u},{-42,387164945372u},{-42,399086609244u},{-42,516740757363u},{-42,586708249994u},{-42,704362398113u},{-42,798173218488u},{-42,868140711119u},{-42,938108203750u},{-42,963514022095u},{-42,10504459873157338u},{-42,11298427574218887u},{-42,12092395275280436u},{-42,20350749365631871u},{-42,22596855148437774u},{-42,24842960931243677u},{-42,45193710296875548u},{-42,47439816079681451u},{-42,49685921862487354u},{-42,62504386178639967u},{-42,90387420593751096u},{-42,94879632159362902u},
{-41,1048848u},{-41,1084409u},{-41,1119970u},{-41,1155531u},{-41,1191092u},{-41,1630438u},{-41,2275501u},{-41,3225315u},{-41,4515441u},{-41,6450630u},{-41,6486191u},{-41,9066443u},{-41,103494568u},{-41,124207706u},{-41,134493153u},{-41,144920844u},{-41,165562860u},{-41,206989136u},{-41,258700859u},{-41,300127135u},{-41,465689995u},{-41,693392269u},{-41,796815715u},{-41,931379990u},{-41,131335148525u},{-41,136416312194u},{-41,187621640750u},{-41,192702804419u},{-41,267751460719u},{-41,455373101469u},{-41,535502921438u},{-41,690681397707u},{-41,910746202938u},{-41,990876022907u},{-41,10045822228800466u},{-41,10169129816452661u},{-41,10309090381073588u},{-41,10703992609483271u},{-41,15196204175095077u},{-41,17179041805627858u},{-41,40833132807400303u},{-41,82719338223893094u},{-41,85631940875866168u},{-41,89194387420037681u},{-41,92106990072010755u},{-41,95669436616182268u},{-41,98582039268155342u},
{-40,1290126u},{-40,1325687u},{-40,1791952u},{-40,1827513u},{-40,2580252u},{-40,2615813u},{-40,3619465u},{-40,3655026u},{-40,5160504u},{-40,5196065u},{-40,7238930u},{-40,7274491u},{-40,8278143u},{-40,117936867u},{-40,120050854u},{-40,122164841u},{-40,132450288u},{-40,159363143u},{-40,186275998u},{-40,213188853u},{-40,240101708u},{-40,264900576u},{-40,291813431u},{-40,318726286u},{-40,399464851u},{-40,426377706u},{-40,453290561u},{-40,637452572u},{-40,691278282u},{-40,745103992u},{-40,798929702u},{-40,852755412u},{-40,988864698u},{-40,991954720u},{-40,105068118820u},{-40,114996686411u},{-40,115230446158u},{-40,125159013749u},{-40,150097312600u},{-40,170188207529u},{-40,210136237640u},{-40,230227132569u},{-40,260246595089u},{-40,300194625200u},{-40,380324445169u},{-40,460454265138u},{-40,500402295249u},{-40,520493190178u},{-40,760648890338u},{-40,840778710307u},{-40,11444474031241759u},{-40,12448223605273369u},{-40,13451973179304979u},{-40,18421398014402151u},{-40,20428897162465371u},{-40,24896447210546738u},{-40,26903946358609958u},{-40,31371496406691325u},{-40,62742992813382650u},
{-39,1039213u},{-39,1447786u},{-39,1669853u},{-39,2078426u},{-39,2486999u},{-39,2895572u},{-39,4156852u},{-39,4973998u},{-39,5791144u},{-39,6199717u},{-39,7834009u},{-39,8313704u},{-39,9468301u},{-39,9947996u},{-39,102268849u},{-39,113033991u},{-39,642835143u},{-39,685895711u},{-39,728956279u},{-39,772016847u},{-39,793547131u},{-39,879668267u},{-39,965789403u},{-39,100220714898u},{-39,100454474645u},{-39,100688234392u},{-39,120077850080u},{-39,152176530017u},{-39,168108990112u},{-39,200207670049u},{-39,240155700160u},{-39,272254380097u},{-39,368316660161u},{-39,416347800193u},{-39,544508760194u},{-39,736633320322u},{-39,832695600386u},{-39,896659200513u},{-39,960622800640u},{-39,10942599244225954u},{-39,11745598903451242u},{-39,12548598562676530u},{-39,13753098051514462u},{-39,18622147929208473u},{-39,20228147247659049u},{-39,25097197125353060u},{-39,50194394250706120u},{-39,58275442765301283u},{-39,71225541157590457u},{-39,84175639549879631u},
{-38,1033841u},{-38,1080146u},{-38,1129780u},{-38,1225719u},{-38,3556401u},{-38,7112802u},{-38,9034911u},{-38,107651420u},{-38,119954915u},{-38,132258410u},{-38,150711988u},{-38,227606335u},{-38,239909830u},{-38,467516165u},{-38,750486563u},{-38,935032330u},{-38,108808248140u},{-38,121787975963u},{-38,134533944039u},{-38,147279912115u},{-38,192124560128u},{-38,230596224103u},{-38,269067888078u},{-38,461192448206u},{-38,602099376283u},{-38,704534640385u},{-38,858421296285u},{-38,922384896412u},{-38,10038878850141224u},{-38,10089930772483507u},{-38,18772537476585074u},{-38,19425147588433761u},{-38,20077757700282448u},{-38,25247586672729661u},{-38,26552806896427035u},{-38,38850295176867522u},{-38,40155515400564896u},{-38,53105613792854070u},{-38,77700590353735044u},{-38,87387638186780783u},{-38,92608519081570279u},{-38,97829399976359775u},
{-37,1191641u},{-37,1269058u},{-37,1652814u},{-37,1730231u},{-37,2383282u},{-37,2999289u},{-37,3460462u},{-37,3921635u},{-37,4460225u},{-37,5382571u},{-37,6304917u},{-37,6920924u},{-37,7843270u},{-37,8304443u},{-37,8920450u},{-37,100885330u},{-37,103346029u},{-37,105806728u},{-37,177163670u},{-37,182085068u},{-37,187006466u},{-37,191927864u},{-37,196849262u},{-37,364170136u},{-37,374012932u},{-37,383855728u},{-37,553637301u},{-37,573322893u},{-37,748025864u},{-37,942414427u},{-37,100026326335u},{-37,102435264102u},{-37,115414991925u},{-37,117823929692u},{-37,140906928077u},{-37,171684259257u},{-37,202461590437u},{-37,281813856154u},{-37,343368518514u},{-37,438109449821u},{-37,499664112181u},{-37,530441443361u},{-37,563627712308u},{-37,686737037028u},{-37,719923305975u},{-37,843032630695u},{-37,876218899642u},{-37,10621122758570814u},{-37,12297488280440487u},{-37,16584294249704908u},{-37,19565879995271955u},{-37,21242245517141628u},{-37,22918611039011301u},{-37,42484491034283256u},{-37,44160856556152929u},{-37,45837222078022602u},{-37,83292616546696839u},{-37,84968982068566512u},{-37,86645347590436185u},{-37,88321713112305858u},{-37,89998078634175531u},{-37,91674444156045204u},
{-36,1137782u},{-36,1322917u},{-36,1568654u},{-36,1784090u},{-36,2029827u},{-36,2891571u},{-36,3137308u},{-36,3568180u},{-36,3813917u},{-36,4059654u},{-36,6028879u},{-36,6274616u},{-36,7136360u},{-36,7627834u},{-36,8119308u},{-36,9597059u},{-36,100393856u},{-36,100882001u},{-36,100908633u},{-36,118601697u},{-36,141730936u},{-36,184545767u},{-36,260332633u},{-36,345962295u},{-36,369091534u},{-36,411906365u},{-36,520665266u},{-36,629424167u},{-36,823812730u},{-36,932571631u},{-36,100896397543u},{-36,101967744608u},{-36,119362796251u},{-36,143984661195u},{-36,168606526139u},{-36,193228391083u},{-36,287969322390u},{-36,337213052278u},{-36,493508645945u},{-36,575938644780u},{-36,674426104556u},{-36,756856103391u},{-36,970959830949u},{-36,987017291890u},{-36,10249977460398515u},{-36,11179083041848128u},{-36,11926342982268188u},{-36,12855448563717801u},{-36,15652703996217564u},{-36,17329069518087237u},{-36,19005435039956910u},{-36,32981773514304801u},{-36,34658139036174474u},{-36,36334504558044147u},{-36,69316278072348948u},{-36,70992643594218621u},
{-35,1107481u},{-35,1205110u},{-35,1427272u},{-35,1821117u},{-35,2854544u},{-35,3739863u},{-35,4527553u},{-35,7382097u},{-35,9055106u},{-35,135136529u},{-35,138384918u},{-35,141633307u},{-35,164762546u},{-35,273521447u},{-35,276769836u},{-35,329525092u},{-35,547042894u},{-35,550291283u},{-35,659050184u},{-35,879816375u},{-35,115187728956u},{-35,131673728723u},{-35,148159728490u},{-35,197403458378u},{-35,230375457912u},{-35,394806916756u},{-35,460750915824u},{-35,608696374901u},{-35,707612373503u},{-35,789613833512u},{-35,921501831648u},{-35,10357097107386062u},{-35,10474155442524533u},{-35,13527982510095855u},{-35,15204348031965528u},{-35,27055965020191710u},{-35,36633408534212171u},{-35,63689373554403881u},{-35,73266817068424342u},{-35,82844260582444803u},{-35,89068973052725918u},{-35,91940954479267687u},
{-34,1001808u},{-34,1008466u},{-34,1102766u},{-34,1200395u},{-34,1515471u},{-34,1830547u},{-34,2303161u},{-34,2933313u},{-34,3563465u},{-34,3661094u},{-34,4606322u},{-34,6594407u},{-34,7854711u},{-34,8147598u},{-34,8484863u},{-34,9212644u},{-34,9940425u},{-34,102262123u},{-34,105510512u},{-34,108758901u},{-34,112007290u},{-34,115255679u},{-34,134408748u},{-34,175963275u},{-34,217517802u},{-34,224014580u},{-34,303875245u},{-34,351926550u},{-34,483086909u},{-34,655801795u},{-34,703853100u},{-34,966173818u},{-34,114973459543u},{-34,118527782792u},{-34,147945459077u},{-34,151499782326u},{-34,190723350706u},{-34,194277673955u},{-34,233501242335u},{-34,237055565584u},{-34,299445241403u},{-34,385001024661u},{-34,470556807919u},{-34,598890482806u},{-34,770002049322u},{-34,941113615838u},{-34,10822386008076684u},{-34,13312270996189130u},{-34,15420059545872253u},{-34,21644772016153368u},{-34,28732330542061383u},{-34,33712100518286275u},{-34,43289544032306736u},{-34,45397332581989859u},{-34,55356872534439643u},{-34,57464661084122766u},{-34,86579088064613472u},{-34,88686876614296595u},{-34,90794665163979718u},
{-33,1027769u},{-33,1357933u},{-33,1425386u},{-33,1988085u},{-33,2783319u},{-33,2850772u},{-33,3976170u},{-33,4043623u},{-33,5566638u},{-33,5634091u},{-33,7952340u},{-33,8019793u},{-33,8087246u},{-33,102059764u},{-33,102599388u},{-33,103139012u},{-33,111939837u},{-33,121550098u},{-33,131160359u},{-33,140770620u},{-33,150380881u},{-33,159991142u},{-33,243100196u},{-33,262320718u},{-33,281541240u},{-33,300761762u},{-33,524641436u},{-33,563082480u},{-33,815792937u},{-33,835013459u},{-33,911895547u},{-33,972400784u},{-33,988777635u},{-33,100509143432u},{-33,101981277788u},{-33,104063466681u},{-33,105535601037u},{-33,136178388563u},{-33,155422139164u},{-33,186800993868u},{-33,206044744469u},{-33,221734171821u},{-33,272356777126u},{-33,412089488938u},{-33,443468343642u},{-33,886936687284u},{-33,937559292589u},{-33,988181897894u},{-33,10649816796951304u},{-33,12757605346634427u},{-33,13484840207314510u},{-33,17737375322859319u},{-33,23407422143585731u},{-33,26969680414629020u},{-33,35474750645718638u},{-33,44707055737488339u},{-33,70949501291437276u},{-33,89414111474976678u},{-33,91521900024659801u},
{-32,1099837u},{-32,1167290u},{-32,1590468u},{-32,2199674u},{-32,2267127u},{-32,3180936u},{-32,3857595u},{-32,6361872u},{-32,7038531u},{-32,7715190u},{-32,112616496u},{-32,140093961u},{-32,151057540u},{-32,197755527u},{-32,225232992u},{-32,252710457u},{-32,450465984u},{-32,609780467u},{-32,741617485u},{-32,900931968u},{-32,10686774813129867u},{-32,10787872165851608u},{-32,10888969518573349u},{-32,13346784838414206u},{-32,17461264585058711u},{-32,21575744331703216u},{-32,28801358226511535u},{-32,37030317719800545u},{-32,55494927903339947u},{-32,71952846889917967u},{-32,88410765876495987u},
{-31,1013924u},{-31,1016053u},{-31,1191005u},{-31,1218412u},{-31,1543038u},{-31,1895071u},{-31,2409417u},{-31,3086076u},{-31,3762735u},{-31,3790142u},{-31,4791427u},{-31,4818834u},{-31,6172152u},{-31,7552877u},{-31,9555447u},{-31,9582854u},{-31,9610261u},{-31,9637668u},{-31,9665075u},{-31,109855046u},{-31,120846032u},{-31,131837018u},{-31,148323497u},{-31,170305469u},{-31,192287441u},{-31,263674036u},{-31,296646994u},{-31,340610938u},{-31,433979505u},{-31,477943449u},{-31,593293988u},{-31,774590443u},{-31,867959010u},{-31,955886898u},{-31,125960498935u},{-31,151867815915u},{-31,444286898029u},{-31,484784982273u},{-31,525283066517u},{-31,545532108639u},{-31,626528277127u},{-31,707524445615u},{-31,11520543290604614u},{-31,14812127087920218u},{-31,23041086581209228u},{-31,27516465626157313u},{-31,29624254175840436u},{-31,34099633220788521u},{-31,37391217018104125u},{-31,46082173162418456u},{-31,50557552207366541u},{-31,59248508351680872u},{-31,63723887396628957u},{-31,74782434036208250u},{-31,83473390180522581u},{-31,92164346324836912u},
{-30,1228949u},{-30,1505094u},{-30,1933015u},{-30,2457898u},{-30,2485305u},{-30,3010188u},{-30,3838623u},{-30,4943203u},{-30,6047783u},{-30,7677246u},{-30,8809233u},{-30,9886406u},{-30,102205207u},{-30,104469181u},{-30,105381912u},{-30,137332511u},{-30,173591802u},{-30,209851093u},{-30,274665022u},{-30,347183604u},{-30,419702186u},{-30,455961477u},{-30,600998641u},{-30,694367208u},{-30,839404372u},{-30,860254357u},{-30,911922954u},{-30,963591551u},{-30,100291587686u},{-30,100768399148u},{-30,101245210610u},{-30,101722022072u},{-30,102198833534u},{-30,121494252732u},{-30,141504889123u},{-30,161515525514u},{-30,283009778246u},{-30,303020414637u},{-30,566019556492u},{-30,586030192883u},{-30,606040829274u},{-30,951943385465u},{-30,971954021856u},{-30,991964658247u},{-30,10163470830589676u},{-30,11058546639579293u},{-30,11953622448568910u},{-30,14956486807241650u},{-30,25437594569535215u},{-30,27227746187514449u},{-30,29912973614483300u},{-30,40394081376776865u},{-30,43974384612735333u},{-30,54455492375028898u},{-30,66726751755301697u},{-30,80788162753553730u},{-30,94849573751805763u},
{-29,1187631u},{-29,1215038u},{-29,1546412u},{-29,1988244u},{-29,3728165u},{-29,4611829u},{-29,6820989u},{-29,9223658u},{-29,149207161u},{-29,157547155u},{-29,230065737u},{-29,298414322u},{-29,460131474u},{-29,528480059u},{-29,681857217u},{-29,818554387u},{-29,920262948u},{-29,105199656742u},{-29,125210293133u},{-29,230409949875u},{-29,250420586266u},{-29,460819899750u},{-29,634437169391u},{-29,748022529859u},{-29,828065075423u},{-29,921639799500u},{-29,10175037827814086u},{-29,10787177696773044u},{-29,11046979642354883u},{-29,11965189445793320u},{-29,16157632550710746u},{-29,20350075655628172u},{-29,23930378891586640u},{-29,32315265101421492u},{-29,37991789889838673u},{-29,64630530202842984u},{-29,70307054991260165u},{-29,95721515566346560u},
{-28,1021695u},{-28,1049434u},{-28,1491266u},{-28,2071129u},{-28,2982532u},{-28,3562395u},{-28,6544927u},{-28,7124790u},{-28,8919857u},{-28,9388764u},{-28,9610676u},{-28,112368007u},{-28,126037724u},{-28,320424033u},{-28,375102901u},{-28,640848066u},{-28,750205802u},{-28,879253797u},{-28,988611533u},{-28,102874670209u},{-28,184327959900u},{-28,235059922941u},{-28,296502576241u},{-28,368655919800u},{-28,542273189441u},{-28,563694569959u},{-28,593005152482u},{-28,737311839600u},{-28,910929109241u},{-28,12874145651452229u},{-28,14061410998252033u},{-28,19144303113269312u},{-28,28122821996504066u},{-28,41590600321356197u},{-28,56245643993008132u},{-28,76577212453077248u},{-28,79879206547894821u},{-28,83181200642712394u},{-28,86483194737529967u},
{-27,1054849u},{-27,1424958u},{-27,2479807u},{-27,2849916u},{-27,3220025u},{-27,3429779u},{-27,4169997u},{-27,5699832u},{-27,6440050u},{-27,6810159u},{-27,6859558u},{-27,8339994u},{-27,9869829u},{-27,101708561u},{-27,104768231u},{-27,107827901u},{-27,132107665u},{-27,157917264u},{-27,215655802u},{-27,296144269u},{-27,347763467u},{-27,399382665u},{-27,508740401u},{-27,695526934u},{-27,889765046u},{-27,894552147u},{-27,933932665u},{-27,973313183u},{-27,978100284u},{-27,103041766483u},{-27,106197447285u},{-27,124463147001u},{-27,147462367920u},{-27,170461588839u},{-27,271925514921u},{-27,294924735840u},{-27,317923956759u},{-27,566850250761u},{-27,589849471680u},{-27,901462066835u},{-27,903708292332u},{-27,947460508673u},{-27,949706734170u},{-27,993458950511u},{-27,995705176008u},{-27,11909527617565141u},{-27,14655043671651935u},{-27,17957037766469508u},{-27,20517061140312709u},{-27,23819055235130282u},{-27,32612081438121443u},{-27,44336116375442991u},{-27,47638110470260564u},{-27,65224162876242886u},{-27,80250191908382007u},
{-26,1159726u},{-26,1288010u},{-26,1658119u},{-26,1964086u},{-26,2270053u},{-26,4846073u},{-26,5152040u},{-26,105686132u},{-26,135167335u},{-26,159753066u},{-26,186786533u},{-26,294920401u},{-26,319506132u},{-26,373573066u},{-26,506292665u},{-26,747146132u},{-26,830694269u},{-26,117969894336u},{-26,173617269641u},{-26,235939788672u},{-26,291587163977u},{-26,370233760201u},{-26,471879577344u},{-26,684820145097u},{-26,740467520402u},{-26,842113337545u},{-26,943759154688u},{-26,10781597489795125u},{-26,10848419731979142u},{-26,10915241974163159u},{-26,11724034937321548u},{-26,93792279498572384u},{-26,95476687667073179u},{-26,97161095835573974u},
{-25,1012563u},{-25,1030408u},{-25,1048253u},{-25,1142915u},{-25,1448882u},{-25,1754849u},{-25,4121632u},{-25,5039533u},{-25,6263401u},{-25,9143320u},{-25,9611193u},{-25,101258533u},{-25,108133868u},{-25,115009203u},{-25,202517066u},{-25,272314533u},{-25,335236665u},{-25,405034132u},{-25,474831599u},{-25,628177203u},{-25,670473330u},{-25,810068264u},{-25,949663198u},{-25,100165275549u},{-25,112775292204u},{-25,135034242326u},{-25,168422667509u},{-25,212940567753u},{-25,336845335018u},{-25,527526952649u},{-25,673690670036u},{-25,864372287667u},
{-24,1065531u},{-24,1828664u},{-24,2598935u},{-24,2901333u},{-24,3203731u},{-24,4427599u},{-24,5802666u},{-24,7480131u},{-24,8855198u},{-24,100048941u},{-24,103843192u},{-24,105549209u},{-24,109343460u},{-24,134094666u},{-24,145095202u},{-24,198391865u},{-24,209392401u},{-24,268189332u},{-24,343487067u},{-24,418784802u},{-24,536378664u},{-24,611676399u},{-24,686974134u},{-24,922161858u},{-24,934868411u},{-24,997459593u},{-24,378841231931u},{-24,383885238593u},{-24,388929245255u},{-24,577088859555u},{-24,767770477186u},{-24,913056034859u},{-24,933232061507u},{-24,953408088155u},{-24,973584114803u},{-24,993760141451u},{-24,56235828438389035u},{-24,57583354973189671u},{-24,58930881507990307u},{-24,60952171310191261u},{-24,63647224379792533u},
{-23,1006479u},{-23,1039574u},{-23,1072669u},{-23,1105764u},{-23,2012958u},{-23,2046053u},{-23,2079148u},{-23,4092106u},{-23,5467173u},{-23,6875335u},{-23,8184212u},{-23,128594398u},{-23,143653945u},{-23,158713492u},{-23,332486531u},{-23,347546078u},{-23,770389891u},{-23,830628079u},{-23,890866267u},{-23,951104455u},{-23,115417771911u},{-23,155571698102u},{-23,190681617631u},{-23,230835543822u},{-23,270989470013u},{-23,311143396204u},{-23,351297322395u},{-23,381363235262u},{-23,461671087644u},{-23,541978940026u},{-23,762726470524u},{-23,823056423363u},{-23,923342175288u},{-23,983672128127u},{-23,10106449011004770u},{-23,11040355829550208u},{-23,11247165687677807u},{-23,11453975545805406u},{-23,13268455489878761u},{-23,22494331375355614u},{-23,26536910979757522u},{-23,33067733795633103u},{-23,38457839934835647u},{-23,44988662750711228u},{-23,96508148317298037u},{-23,98789581670644111u},
{-22,1103688u},{-22,1348591u},{-22,1375067u},{-22,1401543u},{-22,2750134u},{-22,4085487u},{-22,4138439u},{-22,5500268u},{-22,9400423u},{-22,9612231u},{-22,9824039u},{-22,105416829u},{-22,114923156u},{-22,135535923u},{-22,190220891u},{-22,380441782u},{-22,540543579u},{-22,760883564u},{-22,800508985u},{-22,100325377346u},{-22,100404628188u},{-22,120461778573u},{-22,140518928958u},{-22,281037857916u},
{-21,1057692u},{-21,1335353u},{-21,1613014u},{-21,3503689u},{-21,3609593u},{-21,7219186u},{-21,7840361u},{-21,8951005u},{-21,101463722u},{-21,107148648u},{-21,108748761u},{-21,120476376u},{-21,127761415u},{-21,160101797u},{-21,192442179u},{-21,280578173u},{-21,320203594u},{-21,424509779u},{-21,600781767u},{-21,640407188u},{-21,849019558u},{-21,888644979u},{-21,942840478u},{-21,963811008u},{-21,982465899u},{-21,100444253609u},{-21,104455683686u},{-21,108467113763u},{-21,943954081567u},{-21,959999801875u},{-21,976045522183u},
{-20,1081453u},{-20,1264070u},{-20,1388305u},{-20,1665966u},{-20,1790201u},{-20,2776610u},{-20,3456167u},{-20,3580402u},{-20,5677455u},{-20,6912334u},{-20,9257857u},{-20,102209132u},{-20,104306185u},{-20,143931606u},{-20,146028659u},{-20,248237791u},{-20,331682739u},{-20,496475582u},{-20,702990899u},{-20,953325743u},{-20,992951164u},{-20,288274282223u},{-20,304320002531u},{-20,320365722839u},{-20,336411443147u},{-20,352457163455u},{-20,640731445678u},{-20,672822886294u},{-20,785142928450u},{-20,840754266207u},{-20,904937147439u},{-20,969120028671u},
{-19,1011256u},{-19,1036103u},{-19,1060950u},{-19,2221288u},{-19,2270982u},{-19,2345523u},{-19,4541964u},{-19,4691046u},{-19,6986875u},{-19,9382092u},{-19,9779644u},{-19,9888937u},{-19,108897843u},{-19,123070369u},{-19,134350738u},{-19,206515317u},{-19,257421107u},{-19,413030634u},{-19,554467635u},{-19,605373425u},{-19,684624267u},{-19,826061268u},{-19,967498269u},{-19,108891424766u},{-19,110605733461u},{-19,139268556687u},{-19,140982865382u},{-19,157028585690u},{-19,219497158227u},{-19,281965730764u},
{-18,1097230u},{-18,1397375u},{-18,1697520u},{-18,2295829u},{-18,2794750u},{-18,3293671u},{-18,4591658u},{-18,5589500u},{-18,6587342u},{-18,8084105u},{-18,9183316u},{-18,108695105u},{-18,109794316u},{-18,110893527u},{-18,111992738u},{-18,113091949u},{-18,121074685u},{-18,161799317u},{-18,181062422u},{-18,221787054u},{-18,242149370u},{-18,302137107u},{-18,383586371u},{-18,443574108u},{-18,484298740u},{-18,544286477u},{-18,604274214u},{-18,887148216u},{-18,951532797u},{-18,968597480u},{-18,985662163u},{-18,124251421596u},{-18,125622868552u},{-18,186719994133u},{-18,188091441089u},{-18,251245737104u},{-18,312342862685u},{-18,376182882178u},{-18,437280007759u},{-18,563588599789u},{-18,624685725370u},{-18,813462889937u},{-18,874560015518u},{-18,954857398483u},{-18,983039797120u},{-18,994011372768u},
{-17,1117900u},{-17,1256647u},{-17,1358016u},{-17,1616821u},{-17,2235800u},{-17,2854779u},{-17,3233642u},{-17,4471600u},{-17,5709558u},{-17,6467284u},{-17,7566495u},{-17,8943200u},{-17,141437001u},{-17,156847485u},{-17,193719496u},{-17,238296749u},{-17,387438992u},{-17,551991719u},{-17,641146225u},{-17,761121699u},{-17,774877984u},{-17,925674426u},{-17,939430711u},{-17,953186996u},{-17,111620562393u},{-17,124937145074u},{-17,138253727755u},{-17,249874290148u},{-17,337604581091u},{-17,438651454715u},{-17,499748580296u},{-17,675209162182u},{-17,816205783849u},{-17,877302909430u},{-17,938400035011u},{-17,999497160592u},
{-16,1030914u},{-16,1033067u},{-16,1237958u},{-16,1513299u},{-16,1788640u},{-16,2063981u},{-16,3026598u},{-16,3577280u},{-16,4127962u},{-16,6053196u},{-16,7154560u},{-16,9355135u},{-16,9363747u},{-16,9903664u},{-16,9912276u},{-16,122726731u},{-16,125477988u},{-16,128229245u},{-16,130980502u},{-16,133731759u},{-16,253707233u},{-16,256458490u},{-16,259209747u},{-16,510165723u},{-16,512916980u},{-16,677469707u},{-16,682972221u},{-16,688474735u},{-16,110602982204u},{-16,133475673465u},{-16,148827416524u},{-16,175460581886u},{-16,282303089989u},{-16,350921163772u},{-16,412018289353u},{-16,503509054397u},{-16,564606179978u},{-16,671448688081u},{-16,701842327544u},{-16,824036578706u},{-16,854430218169u},{-16,976624469331u},
{-15,1320345u},{-15,1430912u},{-15,1541479u},{-15,1871027u},{-15,2092161u},{-15,2861824u},{-15,3631487u},{-15,3742054u},{-15,5723648u},{-15,6493311u},{-15,7484108u},{-15,8696039u},{-15,102583396u},{-15,105334653u},{-15,108085910u},{-15,132192433u},{-15,137694947u},{-15,199664278u},{-15,205166792u},{-15,275389894u},{-15,337359225u},{-15,410333584u},{-15,550779788u},{-15,612749119u},{-15,820667168u},{-15,882636499u},{-15,959671695u},{-15,977620914u},{-15,995570133u},{-15,106718569441u},{-15,106780538772u},{-15,106842508103u},{-15,106904477434u},{-15,977058254648u},{-15,978049763944u},
{-14,1056276u},{-14,1121755u},{-14,1981594u},{-14,2047073u},{-14,4028667u},{-14,4094146u},{-14,8057334u},{-14,8188292u},{-14,126951835u},{-14,134943690u},{-14,180929311u},{-14,188921166u},{-14,207918049u},{-14,269887380u},{-14,315873001u},{-14,477805429u},{-14,631746002u},{-14,693715333u},{-14,831672196u},{-14,893641527u},{-14,955610858u},
{-13,1028362u},{-13,1080973u},{-13,1146452u},{-13,1663850u},{-13,2109335u},{-13,3773185u},{-13,5947999u},{-13,7546370u},{-13,9144741u},{-13,9563351u},{-13,9617101u},{-13,9746920u},{-13,9800670u},{-13,9930489u},{-13,101561468u},{-13,107954952u},{-13,114348436u},{-13,150743831u},{-13,215909904u},{-13,265092267u},{-13,369850477u},{-13,530184534u},{-13,739700954u},{-13,801670285u},{-13,998399737u},{-13,20480001220703125u},{-13,20480003662109375u},{-13,20480006103515625u},{-13,40960002441406250u},{-13,40960007324218750u},{-13,40960012207031250u},{-13,81920004882812500u},{-13,81920014648437500u},{-13,81920024414062500u},
{-12,1152886u},{-12,1331080u},{-12,1509274u},{-12,1687468u},{-12,1865662u},{-12,2662160u},{-12,3018548u},{-12,3374936u},{-12,4438725u},{-12,6037096u},{-12,7991855u},{-12,8877450u},{-12,9763045u},{-12,103872615u},{-12,111151694u},{-12,118430773u},{-12,145775899u},{-12,160334057u},{-12,174892215u},{-12,236861546u},{-12,258698783u},{-12,320668114u},{-12,411753761u},{-12,473723092u},{-12,579366897u},{-12,641336228u},{-12,823507522u},{-12,885476853u},{-12,10000000488281250u},{-12,10000001464843750u},{-12,10000002441406250u},{-12,16384000976562500u},{-12,16384002929687500u},{-12,16384004882812500u},{-12,32768001953125000u},{-12,32768005859375000u},{-12,32768009765625000u},{-12,65536003906250000u},{-12,65536011718750000u},{-12,65536019531250000u},
{-11,1064864u},{-11,1241983u},{-11,1419102u},{-11,1598371u},{-11,1775490u},{-11,1952609u},{-11,2129728u},{-11,3196742u},{-11,3373861u},{-11,3550980u},{-11,3728099u},{-11,3905218u},{-11,6393484u},{-11,6747722u},{-11,7101960u},{-11,7456198u},{-11,7810436u},{-11,104226853u},{-11,139913772u},{-11,153054978u},{-11,188741897u},{-11,10000000390625000u},{-11,10000001171875000u},{-11,10000001953125000u},{-11,13107200781250000u},{-11,13107202343750000u},{-11,13107203906250000u},{-11,26214401562500000u},{-11,26214404687500000u},{-11,26214407812500000u},{-11,52428803125000000u},{-11,52428809375000000u},{-11,52428815625000000u},
{-10,1060994u},{-10,1064434u},{-10,1067874u},{-10,1420392u},{-10,1774630u},{-10,2840784u},{-10,3729819u},{-10,4438295u},{-10,5681568u},{-10,7279079u},{-10,9793145u},{-10,9918664u},{-10,9973704u},{-10,10000000312500000u},{-10,10000000937500000u},{-10,10000001562500000u},{-10,10485760625000000u},{-10,10485761875000000u},{-10,10485763125000000u},{-10,20971521250000000u},{-10,20971523750000000u},{-10,20971526250000000u},{-10,41943042500000000u},{-10,41943047500000000u},{-10,41943052500000000u},{-10,83886085000000000u},{-10,83886095000000000u},{-10,83886105000000000u},
{-9,1064090u},{-9,1244649u},{-9,1419704u},{-9,1775318u},{-9,2308739u},{-9,2839408u},{-9,3019967u},{-9,3550636u},{-9,4617478u},{-9,5148147u},{-9,6570603u},{-9,7101272u},{-9,8343169u},{-9,9234956u},{-9,10000000500000000u},{-9,10000001500000000u},{-9,10000002500000000u},{-9,16777217000000000u},{-9,16777219000000000u},{-9,16777221000000000u},{-9,33554434000000000u},{-9,33554438000000000u},{-9,33554442000000000u},{-9,67108868000000000u},{-9,67108876000000000u},{-9,67108884000000000u},
{-8,1101853u},{-8,1241897u},{-8,1492478u},{-8,10000000400000000u},{-8,10000001200000000u},{-8,10000002000000000u},{-8,13421773600000000u},{-8,13421775200000000u},{-8,13421776800000000u},{-8,26843547200000000u},{-8,26843550400000000u},{-8,26843553600000000u},{-8,53687094400000000u},{-8,53687100800000000u},{-8,53687107200000000u},
{-7,1048037u},{-7,1061338u},{-7,1126162u},{-7,1139463u},{-7,1204287u},{-7,1217588u},{-7,10000000320000000u},{-7,10000000960000000u},{-7,10000001600000000u},{-7,10737418880000000u},{-7,10737420160000000u},{-7,10737421440000000u},{-7,21474837760000000u},{-7,21474840320000000u},{-7,21474842880000000u},{-7,42949675520000000u},{-7,42949680640000000u},{-7,42949685760000000u},{-7,85899351040000000u},{-7,85899361280000000u},{-7,85899371520000000u},
{-6,262144015625u},{-6,262144046875u},{-6,262144078125u},{-6,524288031250u},{-6,524288093750u},{-6,524288156250u},{-6,10000000512000000u},{-6,10000001536000000u},{-6,10000002560000000u},{-6,17179870208000000u},{-6,17179872256000000u},{-6,17179874304000000u},{-6,34359740416000000u},{-6,34359744512000000u},{-6,34359748608000000u},{-6,68719480832000000u},{-6,68719489024000000u},{-6,68719497216000000u},
{-5,100000003125u},{-5,100000009375u},{-5,100000015625u},{-5,104857606250u},{-5,104857618750u},{-5,104857631250u},{-5,209715212500u},{-5,209715237500u},{-5,209715262500u},{-5,419430425000u},{-5,419430475000u},{-5,419430525000u},{-5,838860850000u},{-5,838860950000u},{-5,838861050000u},{-5,10000000204800000u},{-5,10000001024000000u},{-5,10000001843200000u},{-5,13743896166400000u},{-5,13743897804800000u},{-5,13743899443200000u},{-5,27487792332800000u},{-5,27487795609600000u},{-5,27487798886400000u},{-5,54975584665600000u},{-5,54975591219200000u},{-5,54975597772800000u},
{-4,100000005000u},{-4,100000015000u},{-4,100000025000u},{-4,167772170000u},{-4,167772190000u},{-4,167772210000u},{-4,335544340000u},{-4,335544380000u},{-4,335544420000u},{-4,671088680000u},{-4,671088760000u},{-4,671088840000u},{-4,10000000286720000u},{-4,10000000942080000u},{-4,10000001597440000u},{-4,10995116933120000u},{-4,10995118243840000u},{-4,10995119554560000u},{-4,21990233866240000u},{-4,21990236487680000u},{-4,21990239109120000u},{-4,43980467732480000u},{-4,43980472975360000u},{-4,43980478218240000u},{-4,87960935464960000u},{-4,87960945950720000u},{-4,87960956436480000u},
{-3,100000004000u},{-3,100000012000u},{-3,100000020000u},{-3,134217736000u},{-3,134217752000u},{-3,134217768000u},{-3,268435472000u},{-3,268435504000u},{-3,268435536000u},{-3,536870944000u},{-3,536871008000u},{-3,536871072000u},{-3,10000000352256000u},{-3,10000001400832000u},{-3,10000002449408000u},{-3,17592187092992000u},{-3,17592189190144000u},{-3,17592191287296000u},{-3,35184374185984000u},{-3,35184378380288000u},{-3,35184382574592000u},{-3,70368748371968000u},{-3,70368756760576000u},{-3,70368765149184000u},
{-2,419430425u},{-2,419430475u},{-2,419430525u},{-2,838860850u},{-2,838860950u},{-2,838861050u},{-2,100000003200u},{-2,100000009600u},{-2,100000016000u},{-2,107374188800u},{-2,107374201600u},{-2,107374214400u},{-2,214748377600u},{-2,214748403200u},{-2,214748428800u},{-2,429496755200u},{-2,429496806400u},{-2,429496857600u},{-2,858993510400u},{-2,858993612800u},{-2,858993715200u},{-2,10000000457113600u},{-2,10000001295974400u},{-2,10000002134835200u},{-2,14073749674393600u},{-2,14073751352115200u},{-2,14073753029836800u},{-2,28147499348787200u},{-2,28147502704230400u},{-2,28147506059673600u},{-2,56294998697574400u},{-2,56295005408460800u},{-2,56295012119347200u},
{-1,100000005u},{-1,100000015u},{-1,100000025u},{-1,167772170u},{-1,167772190u},{-1,167772210u},{-1,335544340u},{-1,335544380u},{-1,335544420u},{-1,671088680u},{-1,671088760u},{-1,671088840u},{-1,100000005120u},{-1,100000015360u},{-1,100000025600u},{-1,171798702080u},{-1,171798722560u},{-1,171798743040u},{-1,343597404160u},{-1,343597445120u},{-1,343597486080u},{-1,687194808320u},{-1,687194890240u},{-1,687194972160u},{-1,10000000205455360u},{-1,10000000876544000u},{-1,10000001547632640u},{-1,11258999739514880u},{-1,11259001081692160u},{-1,11259002423869440u},{-1,22517999479029760u},{-1,22518002163384320u},{-1,22518004847738880u},{-1,45035998958059520u},{-1,45036004326768640u},{-1,45036009695477760u},{-1,90071997916119040u},{-1,90072008653537280u},{-1,90072019390955520u},
{0,100000004u},{0,100000012u},{0,100000020u},{0,134217736u},{0,134217752u},{0,134217768u},{0,268435472u},{0,268435504u},{0,268435536u},{0,536870944u},{0,536871008u},{0,536871072u},{0,100000002048u},{0,100000010240u},{0,100000018432u},{0,137438961664u},{0,137438978048u},{0,137438994432u},{0,274877923328u},{0,274877956096u},{0,274877988864u},{0,549755846656u},{0,549755912192u},{0,549755977728u},{0,10000000809435136u},{0,10000001883176960u},{0,10000002956918784u},{0,18014399583223808u},{0,18014401730707456u},{0,18014403878191104u},{0,36028799166447616u},{0,36028803461414912u},{0,36028807756382208u},{0,72057598332895232u},{0,72057606922829824u},{0,72057615512764416u},
{1,3355445u},{1,3355447u},{1,3355449u},{1,6710890u},{1,6710894u},{1,6710898u},{1,100000016u},{1,100000048u},{1,100000080u},{1,107374240u},{1,107374304u},{1,107374368u},{1,214748480u},{1,214748608u},{1,214748736u},{1,429496960u},{1,429497216u},{1,429497472u},{1,858993920u},{1,858994432u},{1,858994944u},{1,100000022528u},{1,100000055296u},{1,100000088064u},{1,109951221760u},{1,109951287296u},{1,109951352832u},{1,219902443520u},{1,219902574592u},{1,219902705664u},{1,439804887040u},{1,439805149184u},{1,439805411328u},{1,879609774080u},{1,879610298368u},{1,879610822656u},{1,10000000272564224u},{1,10000004567531520u},{1,10000008862498816u},{1,14411526538526720u},{1,14411535128461312u},{1,14411543718395904u},{1,28823053077053440u},{1,28823070256922624u},{1,28823087436791808u},{1,57646106154106880u},{1,57646140513845248u},{1,57646174873583616u},
{2,1000001u},{2,1000003u},{2,1000005u},{2,1342178u},{2,1342182u},{2,1342186u},{2,2684356u},{2,2684364u},{2,2684372u},{2,5368712u},{2,5368728u},{2,5368744u},{2,100000128u},{2,100000384u},{2,100000640u},{2,171798784u},{2,171799296u},{2,171799808u},{2,343597568u},{2,343598592u},{2,343599616u},{2,687195136u},{2,687197184u},{2,687199232u},{2,100000202752u},{2,100000464896u},{2,100000727040u},{2,175921954816u},{2,175922479104u},{2,175923003392u},{2,351843909632u},{2,351844958208u},{2,351846006784u},{2,703687819264u},{2,703689916416u},{2,703692013568u},{2,10000015304949760u},{2,10000032484818944u},{2,10000049664688128u},{2,11529221230821376u},{2,11529255590559744u},{2,11529289950298112u},{2,23058442461642752u},{2,23058511181119488u},{2,23058579900596224u},{2,46116884923285504u},{2,46117022362238976u},{2,46117159801192448u},{2,92233769846571008u},{2,92234044724477952u},{2,92234319602384896u},
{3,1000004u},{3,1000012u},{3,1000020u},{3,1073752u},{3,1073768u},{3,1073784u},{3,2147504u},{3,2147536u},{3,2147568u},{3,4295008u},{3,4295072u},{3,4295136u},{3,8590016u},{3,8590144u},{3,8590272u},{3,100000256u},{3,100001280u},{3,100002304u},{3,137440256u},{3,137442304u},{3,137444352u},{3,274880512u},{3,274884608u},{3,274888704u},{3,549761024u},{3,549769216u},{3,549777408u},{3,100000071680u},{3,100001120256u},{3,100002168832u},{3,140738822144u},{3,140740919296u},{3,140743016448u},{3,281477644288u},{3,281481838592u},{3,281486032896u},{3,562955288576u},{3,562963677184u},{3,562972065792u},{3,10000126974099456u},{3,10000264413052928u},{3,10000401852006400u},{3,18446918896058368u},{3,18447193773965312u},{3,18447468651872256u},{3,36893837792116736u},{3,36894387547930624u},{3,36894937303744512u},{3,73787675584233472u},{3,73788775095861248u},{3,73789874607489024u},
{4,1000032u},{4,1000096u},{4,1000160u},{4,1718080u},{4,1718208u},{4,1718336u},{4,3436160u},{4,3436416u},{4,3436672u},{4,6872320u},{4,6872832u},{4,6873344u},{4,100001792u},{4,100005888u},{4,100009984u},{4,109957120u},{4,109965312u},{4,109973504u},{4,219914240u},{4,219930624u},{4,219947008u},{4,439828480u},{4,439861248u},{4,439894016u},{4,879656960u},{4,879722496u},{4,879788032u},{4,100002693120u},{4,100006887424u},{4,100011081728u},{4,112596090880u},{4,112604479488u},{4,112612868096u},{4,225192181760u},{4,225208958976u},{4,225225736192u},{4,450384363520u},{4,450417917952u},{4,450451472384u},{4,900768727040u},{4,900835835904u},{4,900902944768u},{4,10000333132529664u},{4,10000882888343552u},{4,10001432644157440u},{4,14758194823823360u},{4,14759294335451136u},{4,14760393847078912u},{4,29516389647646720u},{4,29518588670902272u},{4,29520787694157824u},{4,59032779295293440u},{4,59037177341804544u},{4,59041575388315648u},
{5,1000064u},{5,1000320u},{5,1000576u},{5,1374464u},{5,1374976u},{5,1375488u},{5,2748928u},{5,2749952u},{5,2750976u},{5,5497856u},{5,5499904u},{5,5501952u},{5,100024320u},{5,100057088u},{5,100089856u},{5,175931392u},{5,175996928u},{5,176062464u},{5,351862784u},{5,351993856u},{5,352124928u},{5,703725568u},{5,703987712u},{5,704249856u},{5,100008984576u},{5,100042539008u},{5,100076093440u},{5,180153745408u},{5,180220854272u},{5,180287963136u},{5,360307490816u},{5,360441708544u},{5,360575926272u},{5,720614981632u},{5,720883417088u},{5,721151852544u},{5,10000058254622720u},{5,10002257277878272u},{5,10004456301133824u},{5,11806555859058688u},{5,11810953905569792u},{5,11815351952080896u},{5,23613111718117376u},{5,23621907811139584u},{5,23630703904161792u},{5,47226223436234752u},{5,47243815622279168u},{5,47261407808323584u},{5,94452446872469504u},{5,94487631244558336u},{5,94522815616647168u},
{6,1000960u},{6,1001984u},{6,1003008u},{6,1100800u},{6,1102848u},{6,1104896u},{6,2201600u},{6,2205696u},{6,2209792u},{6,4403200u},{6,4411392u},{6,4419584u},{6,8806400u},{6,8822784u},{6,8839168u},{6,100073472u},{6,100204544u},{6,100335616u},{6,140902400u},{6,141164544u},{6,141426688u},{6,281804800u},{6,282329088u},{6,282853376u},{6,563609600u},{6,564658176u},{6,565706752u},{6,100059316224u},{6,100193533952u},{6,100327751680u},{6,144284057600u},{6,144552493056u},{6,144820928512u},{6,288568115200u},{6,289104986112u},{6,289641857024u},{6,577136230400u},{6,578209972224u},{6,579283714048u},{6,10001157766250496u},{6,10018749952294912u},{6,10036342138339328u},{6,18911599997747200u},{6,18946784369836032u},{6,18981968741924864u},{6,37823199995494400u},{6,37893568739672064u},{6,37963937483849728u},{6,75646399990988800u},{6,75787137479344128u},{6,75927874967699456u},
{7,1003520u},{7,1011712u},{7,1019904u},{7,1761280u},{7,1777664u},{7,1794048u},{7,3522560u},{7,3555328u},{7,3588096u},{7,7045120u},{7,7110656u},{7,7176192u},{7,100401152u},{7,100925440u},{7,101449728u},{7,112721920u},{7,113770496u},{7,114819072u},{7,225443840u},{7,227540992u},{7,229638144u},{7,450887680u},{7,455081984u},{7,459276288u},{7,901775360u},{7,910163968u},{7,918552576u},{7,100126425088u},{7,100663296000u},{7,101200166912u},{7,115427246080u},{7,116500987904u},{7,117574729728u},{7,230854492160u},{7,233001975808u},{7,235149459456u},{7,461708984320u},{7,466003951616u},{7,470298918912u},{7,923417968640u},{7,932007903232u},{7,940597837824u},{7,10027546045317120u},{7,10097914789494784u},{7,10168283533672448u},{7,15129279998197760u},{7,15270017486553088u},{7,15410754974908416u},{7,30258559996395520u},{7,30540034973106176u},{7,30821509949816832u},{7,60517119992791040u},{7,61080069946212352u},{7,61643019899633664u},
{8,1032192u},{8,1064960u},{8,1097728u},{8,1409024u},{8,1474560u},{8,1540096u},{8,2818048u},{8,2949120u},{8,3080192u},{8,5636096u},{8,5898240u},{8,6160384u},{8,102760448u},{8,106954752u},{8,111149056u},{8,180355072u},{8,188743680u},{8,197132288u},{8,360710144u},{8,377487360u},{8,394264576u},{8,721420288u},{8,754974720u},{8,788529152u},{8,100931731456u},{8,105226698752u},{8,109521666048u},{8,184683593728u},{8,193273528320u},{8,201863462912u},{8,369367187456u},{8,386547056640u},{8,403726925824u},{8,738734374912u},{8,773094113280u},{8,807453851648u},{8,10273836649938944u},{8,10555311626649600u},{8,10836786603360256u},{8,12103423998558208u},{8,12666373951979520u},{8,13229323905400832u},{8,24206847997116416u},{8,25332747903959040u},{8,26458647810801664u},{8,48413695994232832u},{8,50665495807918080u},{8,52917295621603328u},{8,96827391988465664u},{8,98805736115080737u},{8,99352647489221087u},
{9,1023085u},{9,1074067u},{9,1114112u},{9,1179648u},{9,1441792u},{9,1703936u},{9,2359296u},{9,2883584u},{9,3407872u},{9,4718592u},{9,5767168u},{9,6815744u},{9,9255130u},{9,9437184u},{9,9619238u},{9,109051904u},{9,125829120u},{9,142606336u},{9,150994944u},{9,184549376u},{9,218103808u},{9,301989888u},{9,369098752u},{9,436207616u},{9,603979776u},{9,738197504u},{9,872415232u},{9,111669149696u},{9,128849018880u},{9,146028888064u},{9,154618822656u},{9,188978561024u},{9,223338299392u},{9,309237645312u},{9,377957122048u},{9,446676598784u},{9,618475290624u},{9,755914244096u},{9,893353197568u},{9,10133099161583616u},{9,12384898975268864u},{9,14636698788954112u},{9,20266198323167232u},{9,24769797950537728u},{9,29273397577908224u},{9,40532396646334464u},{9,49539595901075456u},{9,58546795155816448u},{9,81064793292668928u},{9,99079191802150912u},
{10,1171639u},{10,1572864u},{10,2498377u},{10,3145728u},{10,4841655u},{10,6291456u},{10,9683310u},{10,9838409u},{10,100663296u},{10,103097601u},{10,109207003u},{10,111641308u},{10,181804873u},{10,201326592u},{10,220848311u},{10,383131465u},{10,402653184u},{10,422174903u},{10,785784649u},{10,805306368u},{10,824828087u},{10,103079215104u},{10,114909896887u},{10,125608271689u},{10,149269635255u},{10,206158430208u},{10,355428065463u},{10,412316860416u},{10,469205655369u},{10,767744925879u},{10,824633720832u},{10,881522515785u},{10,947977378559u},{10,966601902228u},{10,985226425897u},{10,986241649843u},{10,11269937295909047u},{10,13510798882111488u},{10,15773536923279543u},{10,20255260095684425u},{10,27021597764222976u},{10,42795134687502519u},{10,54043195528445952u},{10,83305654878871369u},
{11,1123430u},{11,1134212u},{11,1289311u},{11,1449801u},{11,1936662u},{11,2578622u},{11,3386463u},{11,3873324u},{11,5644105u},{11,6772926u},{11,7259787u},{11,133730867u},{11,153252586u},{11,172774305u},{11,306505172u},{11,326026891u},{11,345548610u},{11,402166323u},{11,441209761u},{11,652053782u},{11,749662377u},{11,804332646u},{11,882419522u},{11,960506398u},{11,119415708204u},{11,134619894323u},{11,176304503157u},{11,295720211361u},{11,352609006314u},{11,591440422722u},{11,648329217675u},{11,705218012628u},{11,845476025249u},{11,959253615155u},{11,10386718534407439u},{11,11722484904142658u},{11,16204208076547540u},{11,21160355312151647u},{11,37364563388699187u},{11,42320710624303294u},{11,47276857859907401u},{11,99270524567629920u},{11,99583652883192799u},{11,99896781198755678u},
{12,1102114u},{12,1128821u},{12,1257213u},{12,1744074u},{12,2257642u},{12,2514426u},{12,3001287u},{12,4515284u},{12,5515713u},{12,6002574u},{12,9464015u},{12,9677671u},{12,9844048u},{12,111668015u},{12,125727435u},{12,138219444u},{12,276438888u},{12,579429205u},{12,763721797u},{12,816824655u},{12,869927513u},{12,119073674449u},{12,129665843535u},{12,140258012621u},{12,191850723031u},{12,259331687070u},{12,316220482023u},{12,383701446062u},{12,451182410101u},{12,518663374140u},{12,586144338179u},{12,632440964046u},{12,767402892124u},{12,902364820202u},{12,12963366461238032u},{12,17919513696842139u},{12,30882880158080171u},{12,35839027393684278u},{12,84254503005269819u},{12,94166797476478033u},
{13,1081777u},{13,1297887u},{13,1513997u},{13,1784748u},{13,1892803u},{13,2595774u},{13,3298745u},{13,4488577u},{13,5191548u},{13,5894519u},{13,7732681u},{13,8977154u},{13,9138623u},{13,100581948u},{13,104638305u},{13,115885841u},{13,163364931u},{13,216467789u},{13,231771682u},{13,258323111u},{13,326729862u},{13,395136613u},{13,463543364u},{13,516646222u},{13,585052973u},{13,653459724u},{13,721866475u},{13,790273226u},{13,950503335u},{13,964885693u},{13,979268051u},{13,103732674828u},{13,108755132367u},{13,113777589906u},{13,118800047445u},{13,202442892117u},{13,207465349656u},{13,212487807195u},{13,217510264734u},{13,274946313695u},{13,284991228773u},{13,414930699312u},{13,424975614390u},{13,549892627390u},{13,689877013007u},{13,829861398624u},{13,979246273844u},{13,980535124794u},{13,998691678525u},{13,999980529475u},{13,11361922616111247u},{13,13418813561909288u},{13,22723845232222494u},{13,24780736178020535u},{13,37592286939034815u},{13,45447690464444988u},{13,49561472356041070u},{13,57416875881451243u},{13,67329170352659457u},{13,75184573878069630u},
{14,1146610u},{14,1319498u},{14,1578830u},{14,2108913u},{14,2638996u},{14,3341967u},{14,4217826u},{14,5277992u},{14,6499627u},{14,6683934u},{14,8435652u},{14,8619959u},{14,129253709u},{14,144373295u},{14,159492881u},{14,220339839u},{14,288746590u},{14,357153341u},{14,440679678u},{14,509086429u},{14,577493180u},{14,645899931u},{14,714306682u},{14,881359356u},{14,889287763u},{14,109978525478u},{14,169990245756u},{14,189951190817u},{14,199996105895u},{14,219957050956u},{14,339980491512u},{14,359941436573u},{14,379902381634u},{14,419953156851u},{14,439914101912u},{14,699921928085u},{14,719882873146u},{14,780023478519u},{14,799984423580u},{14,819945368641u},{14,879828203824u},{14,899789148885u},{14,919750093946u},{14,10586186746414634u},{14,12306131554609465u},{14,15036914775613926u},{14,19824588942416428u},{14,30073829551227852u},{14,39649177884832856u},{14,47504581410243029u},{14,60147659102455704u},{14,77578410961470881u},{14,95009162820486058u},
{15,1018737u},{15,1101595u},{15,1120186u},{15,1263064u},{15,1650269u},{15,2037474u},{15,2710435u},{15,3484845u},{15,6785383u},{15,8334203u},{15,9477227u},{15,9735898u},{15,9845841u},{15,115498636u},{15,141275655u},{15,205220253u},{15,230997272u},{15,256774291u},{15,461994544u},{15,487771563u},{15,898212069u},{15,923989088u},{15,949766107u},{15,975543126u},{15,120023440556u},{15,139984385617u},{15,159996884716u},{15,179957829777u},{15,279968771234u},{15,299929716295u},{15,359915659554u},{15,459926601011u},{15,559937542468u},{15,719831319108u},{15,819842260565u},{15,919853202022u},{15,10050111939086418u},{15,10076209020754439u},{15,12373520782130107u},{15,15171693230655210u},{15,24747041564260214u},{15,27545214012785317u},{15,55090428025570634u},{15,72521179884585811u},{15,87153759295075885u},{15,98346449089176297u},{15,98988166257040856u},
{16,1084174u},{16,1393938u},{16,1703702u},{16,2168348u},{16,2787876u},{16,3407404u},{16,4336696u},{16,5081681u},{16,5575752u},{16,6320737u},{16,8179321u},{16,8673392u},{16,111036483u},{16,113020524u},{16,115004565u},{16,148709991u},{16,174487010u},{16,200264029u},{16,226041048u},{16,348974020u},{16,374751039u},{16,400528058u},{16,723725059u},{16,749502078u},{16,775279097u},{16,969622031u},{16,977496139u},{16,983463776u},{16,989431413u},{16,995399050u},{16,107954076251u},{16,119971886518u},{16,139932831579u},{16,163968452113u},{16,188004072647u},{16,239943773036u},{16,251961583303u},{16,327936904226u},{16,403912225149u},{16,479887546072u},{16,503923166606u},{16,579898487529u},{16,655873808452u},{16,731849129375u},{16,993766361425u},{16,998459685354u},{16,10889742171541215u},{16,12137354584524168u},{16,13384966997507121u},{16,14632579410490074u},{16,17430751859015177u},{16,24274709169048336u},{16,26769933995014242u},{16,34861503718030354u},{16,44200685854029419u},{16,57888600474095737u},{16,69723007436060708u},{16,79062189572059773u},{16,88401371708058838u},
{17,1066519u},{17,1215516u},{17,1262596u},{17,1364513u},{17,1411593u},{17,1537050u},{17,2329115u},{17,2627109u},{17,2925103u},{17,3866165u},{17,5254218u},{17,6940265u},{17,7732330u},{17,9716371u},{17,113812589u},{17,139589608u},{17,165366627u},{17,279179216u},{17,304956235u},{17,330733254u},{17,584135451u},{17,609912470u},{17,635689489u},{17,135208193933u},{17,146369825875u},{17,216764330827u},{17,292739651750u},{17,368714972673u},{17,433528661654u},{17,509503982577u},{17,585479303500u},{17,867057323308u},{17,943032644231u},{17,10579630164432785u},{17,11834406961964971u},{17,12447466591632598u},{17,85278758483326839u},{17,92750104192126091u},
{18,1052395u},{18,1090059u},{18,1229640u},{18,1388053u},{18,1546466u},{18,1704879u},{18,1863292u},{18,2776106u},{18,3092932u},{18,5552212u},{18,6185864u},{18,8486731u},{18,9120383u},{18,9738521u},{18,9837120u},{18,100807209u},{18,121982494u},{18,143157779u},{18,147759513u},{18,218187969u},{18,243964988u},{18,269742007u},{18,316694311u},{18,487929976u},{18,633388622u},{18,804624287u},{18,975859952u},{18,104564343438u},{18,110830102069u},{18,117095860700u},{18,123361619331u},{18,129627377962u},{18,234191721400u},{18,310167042323u},{18,392408121877u},{18,468383442800u},{18,708840922831u},{18,784816243754u},{18,860791564677u},{18,10040464645763899u},{18,10214660140451902u},{18,11207018563198878u},{18,14067213413145667u},{18,28134426826291334u},{18,32745577685143797u},{18,45937313093836627u},{18,75822695929033635u},{18,89656148505591024u},{18,91874626187673254u},{18,99987689064337065u},
{19,1317155u},{19,1617364u},{19,1650598u},{19,1967424u},{19,2267633u},{19,2934519u},{19,3601405u},{19,4901943u},{19,5869038u},{19,6836133u},{19,9437209u},{19,9803886u},{19,111211513u},{19,111578190u},{19,153928760u},{19,188175893u},{19,222423026u},{19,993166857u},{19,996100273u},{19,999033689u},{19,104016389310u},{19,123909573459u},{19,182183526745u},{19,187353377120u},{19,369536903865u},{19,374706754240u},{19,744243658105u},{19,749413508480u},{19,14720843649390281u},{19,14942691417598504u},{19,15164539185806727u},{19,15386386954014950u},{19,15608234722223173u},{19,19997537812867413u},{19,20441233349283859u},{19,30329078371613454u},{19,30772773908029900u},{19,40882466698567718u},{19,50770311720897313u},{19,60658156743226908u},{19,70989697301972949u},{19,81764933397135436u},{19,90765387346632139u},
{20,1053724u},{20,1247143u},{20,1440562u},{20,2494286u},{20,2881124u},{20,3848219u},{20,4621895u},{20,7696438u},{20,9243790u},{20,9610467u},{20,123143008u},{20,157390141u},{20,191637274u},{20,239729931u},{20,308224197u},{20,376718463u},{20,479459862u},{20,691498745u},{20,835043362u},{20,896981543u},{20,958919724u},{20,100747643544u},{20,100790602723u},{20,144712851321u},{20,145746821396u},{20,146780791471u},{20,149882701696u},{20,150916671771u},{20,151950641846u},{20,294595553017u},{20,295629523092u},{20,296663493167u},{20,298731433317u},{20,299765403392u},{20,300799373467u},{20,592293016259u},{20,593326986334u},{20,594360956409u},{20,596428896559u},{20,597462866634u},{20,598496836709u},{20,10331540558746041u},{20,11421718490379068u},{20,12309109563211960u},{20,13842983031261433u},{20,20663081117492082u},{20,24618219126423920u},{20,30550926139821677u},{20,38461202157685353u},{20,46371478175549029u},{20,61101852279643354u},{20,76922404315370706u},{20,95607916428396869u},
{21,1054921u},{21,1095243u},{21,1160514u},{21,1225785u},{21,1612623u},{21,1848758u},{21,3697516u},{21,4536463u},{21,6083815u},{21,9923467u},{21,9967568u},{21,133054881u},{21,135677315u},{21,138299749u},{21,140922183u},{21,204171581u},{21,276599498u},{21,346404981u},{21,480771079u},{21,553198996u},{21,692809962u},{21,754748143u},{21,899603977u},{21,961542158u},{21,10009517137609676u},{21,12793362471388433u},{21,14811488847614379u},{21,19694575301139136u},{21,34506064148753515u},{21,69012128297507030u},{21,86003973008387463u},{21,92580726864057950u},{21,95770145915436977u},
{22,1027855u},{22,1216763u},{22,1405671u},{22,1594579u},{22,1961256u},{22,2055710u},{22,2433526u},{22,3366927u},{22,3744743u},{22,4867052u},{22,6178269u},{22,6733854u},{22,7489486u},{22,8222840u},{22,8422887u},{22,8622934u},{22,9534057u},{22,9734104u},{22,108541852u},{22,118831541u},{22,134366098u},{22,155145523u},{22,175724901u},{22,196504326u},{22,217083704u},{22,237863129u},{22,13463692179072260u},{22,13802425659501406u},{22,18516145372811590u},{22,23060498345907201u},{22,27604851319002812u},{22,32149204292098423u},
{23,1644568u},{23,2733551u},{23,2955785u},{23,4378119u},{23,5467102u},{23,5911570u},{23,6778319u},{23,7667255u},{23,8756238u},{23,9845221u},{23,115764639u},{23,132388179u},{23,157123442u},{23,173746982u},{23,198482245u},{23,473611075471u},{23,476258038863u},{23,478905002255u},{23,481551965647u},{23,936634297374u},{23,941928224158u},{23,947222150942u},{23,957810004510u},{23,963103931294u},{23,968397858078u},
{24,1053411u},{24,1182314u},{24,1533451u},{24,1791257u},{24,2364628u},{24,3066902u},{24,3898079u},{24,4729256u},{24,117426993u},{24,130725825u},{24,158785796u},{24,101074927235u},{24,191562000902u},{24,286019519657u},{24,383124001804u},{24,477581520559u},{24,572039039314u},{24,766248003608u},{24,955163041118u},
{25,1003319u},{25,1004454u},{25,1005589u},{25,1014027u},{25,1020516u},{25,1599241u},{25,1725467u},{25,1851693u},{25,2493531u},{25,3198482u},{25,3450934u},{25,4987062u},{25,5944465u},{25,6901868u},{25,8511817u},{25,9069126u},{25,9521625u},{25,9974124u},{25,102213355u},{25,104580660u},{25,106947965u},{25,163067907u},{25,167802517u},{25,204426710u},{25,209161320u},{25,245785513u},{25,250520123u},{25,537664439u},{25,620382045u},{25,703099651u},{25,108055095722u},{25,118642949290u},{25,126946599473u},{25,170023533759u},{25,207806541261u},{25,245589548763u},{25,340047067518u},{25,415613082522u},{25,482875447343u},{25,491179097526u},{25,596224469849u},{25,747356499857u},{25,898488529865u},
{26,1188893u},{26,1904325u},{26,2377786u},{26,2851247u},{26,3335189u},{26,3808650u},{26,4282111u},{26,5229033u},{26,5702494u},{26,6175955u},{26,6670378u},{26,7143839u},{26,7617300u},{26,100403359u},{26,100709124u},{26,102297203u},{26,102602968u},{26,124076409u},{26,163541368u},{26,167329056u},{26,206794015u},{26,208687859u},{26,248152818u},{26,287617777u},{26,374123071u},{26,496305636u},{26,622275889u},{26,701205807u},{26,827176060u},{26,834751436u},{26,945570937u},{26,992611272u},{26,101390646907u},{26,103218009615u},{26,105045372323u},{26,122566354043u},{26,132697366934u},{26,179697705973u},{26,255263720977u},{26,359395411946u},{26,510527441954u},{26,718790823892u},
{27,1132114u},{27,1235191u},{27,1523460u},{27,1996921u},{27,2470382u},{27,3046920u},{27,3520381u},{27,3993842u},{27,4467303u},{27,4940764u},{27,7040762u},{27,7987684u},{27,8934606u},{27,9881528u},{27,137211011u},{27,146619078u},{27,156027145u},{27,165435212u},{27,321462357u},{27,330870424u},{27,652332781u},{27,661740848u},{27,866641019u},{27,885457153u},{27,904273287u},{27,104131690969u},{27,139705759622u},{27,208263381938u},{27,243837450591u},
{28,1003536u},{28,1012614u},{28,1021692u},{28,1030770u},{28,1218768u},{28,1420383u},{28,1964075u},{28,2437536u},{28,2840766u},{28,3182843u},{28,3586073u},{28,3928150u},{28,4532995u},{28,4875072u},{28,6023609u},{28,7514223u},{28,8601607u},{28,9065990u},{28,9750144u},{28,106005582u},{28,115413649u},{28,124821716u},{28,169564977u},{28,188381111u},{28,249643432u},{28,277867633u},{28,339129954u},{28,438024543u},{28,616997587u},{28,814786765u},{28,876049086u},
{29,1067891u},{29,1571260u},{29,1813198u},{29,2316567u},{29,2639151u},{29,3142520u},{29,3626396u},{29,4129765u},{29,5278302u},{29,5781671u},{29,7252792u},{29,7756161u},{29,8259530u},{29,100908065u},{29,102481999u},{29,103708508u},{29,160156910u},{29,162957353u},{29,323114263u},{29,325914706u},{29,649028969u},{29,651829412u},
{30,1184694u},{30,1257008u},{30,1651906u},{30,2010647u},{30,2514016u},{30,3303812u},{30,3662553u},{30,6607624u},{30,9408067u},{30,128125528u},{30,130925971u},{30,208921465u},
{31,1001080u},{31,1014977u},{31,1738117u},{31,3476234u},{31,3490131u},{31,6966365u},
{32,1379376u},{32,1393273u},{32,1407170u},{32,2237575u},{32,2786546u},{32,3335517u},
};
