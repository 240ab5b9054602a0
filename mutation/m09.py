U='utils.h'; T='threadlocalutils.cpp'; H='threadlocalutils.h'
M=[
('B','simd-continuation-mask',[(T,"(x & 0b11000000) != 0b10000000","(x & 0b10000000) != 0b10000000")]),
('B','gen-4byte-shift',[(U,"cur_code_point += ((x & 0b00000111) << 18);","cur_code_point += ((x & 0b00000111) << 17);")]),
('B','simd-4byte-lead-mask',[(T,"(x & 0b11111000) == 0b11110000","(x & 0b11110000) == 0b11110000")]),
('B','gen-overlong3',[(U,"cur_code_point < 0x800)","cur_code_point < 0x80)")]),
('B','simd-surrogate-top',[(T,"cur_code_point <= 0xDFFF","cur_code_point < 0xDFFF")]),
('B','simd-max',[(T,"cur_code_point > 0x10FFFF","cur_code_point > 0x11FFFF")]),
('B','simd-plane',[(T,"plane <= 16 &&","plane < 16 &&")]),
('B','gen-truncated',[(U,"return multibyte_remain == 0;","return true;")]),
('B','simd-truncated',[(T,"                if (n >= len)\n                    return false;\n","                if (n >= len)\n                    break;\n")]),
('B','simd-prefix',[(T,"(1 << index) - 1","(1 << (index - 1)) - 1")]),
('B','gen-wildcard',[(U,"if (alsoCheckInvalidPublishChars && (x == '#' || x == '+'))","if (alsoCheckInvalidPublishChars && x == '#')")]),
('B','simd-wildcard',[(T,"_mm_cmpeq_epi8(loaded, pound) || _mm_movemask_epi8(_mm_cmpeq_epi8(loaded, plus))","_mm_cmpeq_epi8(loaded, pound)")]),
('B','simd-7f',[(H,"_mm_set1_epi8(0x7E)","_mm_set1_epi8(0x7F)")]),
('B','gen-fdd0',[(U,"cur_code_point >= 0xFDD0 && cur_code_point <= 0xFDEF","cur_code_point >= 0xFDD0 && cur_code_point <= 0xFEEF")]),
('B','gen-c1',[(U,"cur_code_point <= 0x009F","cur_code_point < 0x009F")]),
('B','drop-flag',[(U,"return simdUtils.isValidUtf8(s, alsoCheckInvalidPublishChars);","return simdUtils.isValidUtf8(s);")]),
('K','or-assign',[(U,"cur_code_point += ((x & 0b00111111) << (6*multibyte_remain));","cur_code_point |= static_cast<uint32_t>(x & 0x3F) << (multibyte_remain * 6);")]),
('K','bool-nonchar',[(T,"            if (plane <= 16 && (last_16_bit == 0xFFFE || last_16_bit == 0xFFFF))\n                return false;","            const bool nonchar = last_16_bit == 0xFFFE || last_16_bit == 0xFFFF;\n            if (nonchar && plane <= 16)\n                return false;")]),
('K','fffe-mask',[(U,"if (plane <= 16 && (last_16_bit == 0xFFFE || last_16_bit == 0xFFFF))","if (plane <= 16 && (cur_code_point & 0xFFFE) == 0xFFFE)")]),
('K','lead-c0',[(T,"if((x & 0b11100000) == 0b11000000) // 2 byte char","if(x >= 0xC0 && x < 0xE0)")]),
('K','early-f5',[(T,"else if((x & 0b11111000) == 0b11110000) // 4 byte char","else if(x >= 0xF0 && x <= 0xF4)")]),
]
