// Generated by ref/gen_ref.py: public enum variants <-> reference value ids.
use seshat::unicode::props::*;
#[allow(unreachable_patterns)]
#[inline(never)]
pub fn gc_id(x: Gc) -> u32 { match x {
    Gc::Cc => 0,
    Gc::Cf => 1,
    Gc::Cn => 2,
    Gc::Co => 3,
    Gc::Cs => 4,
    Gc::Ll => 5,
    Gc::Lm => 6,
    Gc::Lo => 7,
    Gc::Lt => 8,
    Gc::Lu => 9,
    Gc::Mc => 10,
    Gc::Me => 11,
    Gc::Mn => 12,
    Gc::Nd => 13,
    Gc::Nl => 14,
    Gc::No => 15,
    Gc::Pc => 16,
    Gc::Pd => 17,
    Gc::Pe => 18,
    Gc::Pf => 19,
    Gc::Pi => 20,
    Gc::Po => 21,
    Gc::Ps => 22,
    Gc::Sc => 23,
    Gc::Sk => 24,
    Gc::Sm => 25,
    Gc::So => 26,
    Gc::Zl => 27,
    Gc::Zp => 28,
    Gc::Zs => 29,
    _ => 0xFFFF,
} }
pub const GC_ALL: [Gc; 30] = [Gc::Cc, Gc::Cf, Gc::Cn, Gc::Co, Gc::Cs, Gc::Ll, Gc::Lm, Gc::Lo, Gc::Lt, Gc::Lu, Gc::Mc, Gc::Me, Gc::Mn, Gc::Nd, Gc::Nl, Gc::No, Gc::Pc, Gc::Pd, Gc::Pe, Gc::Pf, Gc::Pi, Gc::Po, Gc::Ps, Gc::Sc, Gc::Sk, Gc::Sm, Gc::So, Gc::Zl, Gc::Zp, Gc::Zs];
#[allow(unreachable_patterns)]
#[inline(never)]
pub fn hst_id(x: Hst) -> u32 { match x {
    Hst::L => 0,
    Hst::LV => 1,
    Hst::LVT => 2,
    Hst::NA => 3,
    Hst::T => 4,
    Hst::V => 5,
    _ => 0xFFFF,
} }
pub const HST_ALL: [Hst; 6] = [Hst::L, Hst::LV, Hst::LVT, Hst::NA, Hst::T, Hst::V];
#[allow(unreachable_patterns)]
#[inline(never)]
pub fn gcb_id(x: Gcb) -> u32 { match x {
    Gcb::CN => 0,
    Gcb::CR => 1,
    Gcb::EB => 2,
    Gcb::EBG => 3,
    Gcb::EM => 4,
    Gcb::EX => 5,
    Gcb::GAZ => 6,
    Gcb::L => 7,
    Gcb::LF => 8,
    Gcb::LV => 9,
    Gcb::LVT => 10,
    Gcb::PP => 11,
    Gcb::RI => 12,
    Gcb::SM => 13,
    Gcb::T => 14,
    Gcb::V => 15,
    Gcb::XX => 16,
    Gcb::ZWJ => 17,
    _ => 0xFFFF,
} }
pub const GCB_ALL: [Gcb; 18] = [Gcb::CN, Gcb::CR, Gcb::EB, Gcb::EBG, Gcb::EM, Gcb::EX, Gcb::GAZ, Gcb::L, Gcb::LF, Gcb::LV, Gcb::LVT, Gcb::PP, Gcb::RI, Gcb::SM, Gcb::T, Gcb::V, Gcb::XX, Gcb::ZWJ];
#[allow(unreachable_patterns)]
#[inline(never)]
pub fn bc_id(x: Bc) -> u32 { match x {
    Bc::AL => 0,
    Bc::AN => 1,
    Bc::B => 2,
    Bc::BN => 3,
    Bc::CS => 4,
    Bc::EN => 5,
    Bc::ES => 6,
    Bc::ET => 7,
    Bc::FSI => 8,
    Bc::L => 9,
    Bc::LRE => 10,
    Bc::LRI => 11,
    Bc::LRO => 12,
    Bc::NSM => 13,
    Bc::ON => 14,
    Bc::PDF => 15,
    Bc::PDI => 16,
    Bc::R => 17,
    Bc::RLE => 18,
    Bc::RLI => 19,
    Bc::RLO => 20,
    Bc::S => 21,
    Bc::WS => 22,
    _ => 0xFFFF,
} }
pub const BC_ALL: [Bc; 23] = [Bc::AL, Bc::AN, Bc::B, Bc::BN, Bc::CS, Bc::EN, Bc::ES, Bc::ET, Bc::FSI, Bc::L, Bc::LRE, Bc::LRI, Bc::LRO, Bc::NSM, Bc::ON, Bc::PDF, Bc::PDI, Bc::R, Bc::RLE, Bc::RLI, Bc::RLO, Bc::S, Bc::WS];
pub const CCC_ALL: [Ccc; 58] = [Ccc::NR, Ccc::OV, Ccc::HANR, Ccc::NK, Ccc::KV, Ccc::VR, Ccc::CCC10, Ccc::CCC11, Ccc::CCC12, Ccc::CCC13, Ccc::CCC14, Ccc::CCC15, Ccc::CCC16, Ccc::CCC17, Ccc::CCC18, Ccc::CCC19, Ccc::CCC20, Ccc::CCC21, Ccc::CCC22, Ccc::CCC23, Ccc::CCC24, Ccc::CCC25, Ccc::CCC26, Ccc::CCC27, Ccc::CCC28, Ccc::CCC29, Ccc::CCC30, Ccc::CCC31, Ccc::CCC32, Ccc::CCC33, Ccc::CCC34, Ccc::CCC35, Ccc::CCC36, Ccc::CCC84, Ccc::CCC91, Ccc::CCC103, Ccc::CCC107, Ccc::CCC118, Ccc::CCC122, Ccc::CCC129, Ccc::CCC130, Ccc::CCC132, Ccc::CCC133, Ccc::ATBL, Ccc::ATB, Ccc::ATA, Ccc::ATAR, Ccc::BL, Ccc::B, Ccc::BR, Ccc::L, Ccc::R, Ccc::AL, Ccc::A, Ccc::AR, Ccc::DB, Ccc::DA, Ccc::IS];
pub const CCC_NUM: [u32; 58] = [0, 1, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 84, 91, 103, 107, 118, 122, 129, 130, 132, 133, 200, 202, 214, 216, 218, 220, 222, 224, 226, 228, 230, 232, 233, 234, 240];
#[allow(unreachable_patterns)]
#[inline(never)]
pub fn dt_id(x: Dt) -> u32 { match x {
    Dt::Can => 0,
    Dt::Com => 1,
    Dt::Enc => 2,
    Dt::Fin => 3,
    Dt::Font => 4,
    Dt::Fra => 5,
    Dt::Init => 6,
    Dt::Iso => 7,
    Dt::Med => 8,
    Dt::Nar => 9,
    Dt::Nb => 10,
    Dt::None => 11,
    Dt::Sml => 12,
    Dt::Sqr => 13,
    Dt::Sub => 14,
    Dt::Sup => 15,
    Dt::Vert => 16,
    Dt::Wide => 17,
    _ => 0xFFFF,
} }
pub const DT_ALL: [Dt; 18] = [Dt::Can, Dt::Com, Dt::Enc, Dt::Fin, Dt::Font, Dt::Fra, Dt::Init, Dt::Iso, Dt::Med, Dt::Nar, Dt::Nb, Dt::None, Dt::Sml, Dt::Sqr, Dt::Sub, Dt::Sup, Dt::Vert, Dt::Wide];
#[allow(unreachable_patterns)]
#[inline(never)]
pub fn blk_id(x: Blk) -> u32 { match x {
    Blk::Adlam => 0,
    Blk::AegeanNumbers => 1,
    Blk::Ahom => 2,
    Blk::Alchemical => 3,
    Blk::AlphabeticPf => 4,
    Blk::AnatolianHieroglyphs => 5,
    Blk::AncientGreekMusic => 6,
    Blk::AncientGreekNumbers => 7,
    Blk::AncientSymbols => 8,
    Blk::Arabic => 9,
    Blk::ArabicExtA => 10,
    Blk::ArabicExtB => 11,
    Blk::ArabicExtC => 12,
    Blk::ArabicMath => 13,
    Blk::ArabicPfA => 14,
    Blk::ArabicPfB => 15,
    Blk::ArabicSup => 16,
    Blk::Armenian => 17,
    Blk::Arrows => 18,
    Blk::Ascii => 19,
    Blk::Avestan => 20,
    Blk::Balinese => 21,
    Blk::Bamum => 22,
    Blk::BamumSup => 23,
    Blk::BassaVah => 24,
    Blk::Batak => 25,
    Blk::Bengali => 26,
    Blk::Bhaiksuki => 27,
    Blk::BlockElements => 28,
    Blk::Bopomofo => 29,
    Blk::BopomofoExt => 30,
    Blk::BoxDrawing => 31,
    Blk::Brahmi => 32,
    Blk::Braille => 33,
    Blk::Buginese => 34,
    Blk::Buhid => 35,
    Blk::ByzantineMusic => 36,
    Blk::Carian => 37,
    Blk::CaucasianAlbanian => 38,
    Blk::Chakma => 39,
    Blk::Cham => 40,
    Blk::Cherokee => 41,
    Blk::CherokeeSup => 42,
    Blk::ChessSymbols => 43,
    Blk::Chorasmian => 44,
    Blk::Cjk => 45,
    Blk::CjkCompat => 46,
    Blk::CjkCompatForms => 47,
    Blk::CjkCompatIdeographs => 48,
    Blk::CjkCompatIdeographsSup => 49,
    Blk::CjkExtA => 50,
    Blk::CjkExtB => 51,
    Blk::CjkExtC => 52,
    Blk::CjkExtD => 53,
    Blk::CjkExtE => 54,
    Blk::CjkExtF => 55,
    Blk::CjkExtG => 56,
    Blk::CjkExtH => 57,
    Blk::CjkExtI => 58,
    Blk::CjkRadicalsSup => 59,
    Blk::CjkStrokes => 60,
    Blk::CjkSymbols => 61,
    Blk::CompatJamo => 62,
    Blk::ControlPictures => 63,
    Blk::Coptic => 64,
    Blk::CopticEpactNumbers => 65,
    Blk::CountingRod => 66,
    Blk::Cuneiform => 67,
    Blk::CuneiformNumbers => 68,
    Blk::CurrencySymbols => 69,
    Blk::CypriotSyllabary => 70,
    Blk::CyproMinoan => 71,
    Blk::Cyrillic => 72,
    Blk::CyrillicExtA => 73,
    Blk::CyrillicExtB => 74,
    Blk::CyrillicExtC => 75,
    Blk::CyrillicExtD => 76,
    Blk::CyrillicSup => 77,
    Blk::Deseret => 78,
    Blk::Devanagari => 79,
    Blk::DevanagariExt => 80,
    Blk::DevanagariExtA => 81,
    Blk::Diacriticals => 82,
    Blk::DiacriticalsExt => 83,
    Blk::DiacriticalsForSymbols => 84,
    Blk::DiacriticalsSup => 85,
    Blk::Dingbats => 86,
    Blk::DivesAkuru => 87,
    Blk::Dogra => 88,
    Blk::Domino => 89,
    Blk::Duployan => 90,
    Blk::EarlyDynasticCuneiform => 91,
    Blk::EgyptianHieroglyphFormatControls => 92,
    Blk::EgyptianHieroglyphs => 93,
    Blk::Elbasan => 94,
    Blk::Elymaic => 95,
    Blk::Emoticons => 96,
    Blk::EnclosedAlphanum => 97,
    Blk::EnclosedAlphanumSup => 98,
    Blk::EnclosedCjk => 99,
    Blk::EnclosedIdeographicSup => 100,
    Blk::Ethiopic => 101,
    Blk::EthiopicExt => 102,
    Blk::EthiopicExtA => 103,
    Blk::EthiopicExtB => 104,
    Blk::EthiopicSup => 105,
    Blk::GeometricShapes => 106,
    Blk::GeometricShapesExt => 107,
    Blk::Georgian => 108,
    Blk::GeorgianExt => 109,
    Blk::GeorgianSup => 110,
    Blk::Glagolitic => 111,
    Blk::GlagoliticSup => 112,
    Blk::Gothic => 113,
    Blk::Grantha => 114,
    Blk::Greek => 115,
    Blk::GreekExt => 116,
    Blk::Gujarati => 117,
    Blk::GunjalaGondi => 118,
    Blk::Gurmukhi => 119,
    Blk::HalfAndFullForms => 120,
    Blk::HalfMarks => 121,
    Blk::Hangul => 122,
    Blk::HanifiRohingya => 123,
    Blk::Hanunoo => 124,
    Blk::Hatran => 125,
    Blk::Hebrew => 126,
    Blk::HighPuSurrogates => 127,
    Blk::HighSurrogates => 128,
    Blk::Hiragana => 129,
    Blk::Idc => 130,
    Blk::IdeographicSymbols => 131,
    Blk::ImperialAramaic => 132,
    Blk::IndicNumberForms => 133,
    Blk::IndicSiyaqNumbers => 134,
    Blk::InscriptionalPahlavi => 135,
    Blk::InscriptionalParthian => 136,
    Blk::IpaExt => 137,
    Blk::Jamo => 138,
    Blk::JamoExtA => 139,
    Blk::JamoExtB => 140,
    Blk::Javanese => 141,
    Blk::Kaithi => 142,
    Blk::KaktovikNumerals => 143,
    Blk::KanaExtA => 144,
    Blk::KanaExtB => 145,
    Blk::KanaSup => 146,
    Blk::Kanbun => 147,
    Blk::Kangxi => 148,
    Blk::Kannada => 149,
    Blk::Katakana => 150,
    Blk::KatakanaExt => 151,
    Blk::Kawi => 152,
    Blk::KayahLi => 153,
    Blk::Kharoshthi => 154,
    Blk::KhitanSmallScript => 155,
    Blk::Khmer => 156,
    Blk::KhmerSymbols => 157,
    Blk::Khojki => 158,
    Blk::Khudawadi => 159,
    Blk::Lao => 160,
    Blk::Latin1Sup => 161,
    Blk::LatinExtA => 162,
    Blk::LatinExtAdditional => 163,
    Blk::LatinExtB => 164,
    Blk::LatinExtC => 165,
    Blk::LatinExtD => 166,
    Blk::LatinExtE => 167,
    Blk::LatinExtF => 168,
    Blk::LatinExtG => 169,
    Blk::Lepcha => 170,
    Blk::LetterlikeSymbols => 171,
    Blk::Limbu => 172,
    Blk::LinearA => 173,
    Blk::LinearBIdeograms => 174,
    Blk::LinearBSyllabary => 175,
    Blk::Lisu => 176,
    Blk::LisuSup => 177,
    Blk::LowSurrogates => 178,
    Blk::Lycian => 179,
    Blk::Lydian => 180,
    Blk::Mahajani => 181,
    Blk::Mahjong => 182,
    Blk::Makasar => 183,
    Blk::Malayalam => 184,
    Blk::Mandaic => 185,
    Blk::Manichaean => 186,
    Blk::Marchen => 187,
    Blk::MasaramGondi => 188,
    Blk::MathAlphanum => 189,
    Blk::MathOperators => 190,
    Blk::MayanNumerals => 191,
    Blk::Medefaidrin => 192,
    Blk::MeeteiMayek => 193,
    Blk::MeeteiMayekExt => 194,
    Blk::MendeKikakui => 195,
    Blk::MeroiticCursive => 196,
    Blk::MeroiticHieroglyphs => 197,
    Blk::Miao => 198,
    Blk::MiscArrows => 199,
    Blk::MiscMathSymbolsA => 200,
    Blk::MiscMathSymbolsB => 201,
    Blk::MiscPictographs => 202,
    Blk::MiscSymbols => 203,
    Blk::MiscTechnical => 204,
    Blk::Modi => 205,
    Blk::ModifierLetters => 206,
    Blk::ModifierToneLetters => 207,
    Blk::Mongolian => 208,
    Blk::MongolianSup => 209,
    Blk::Mro => 210,
    Blk::Multani => 211,
    Blk::Music => 212,
    Blk::Myanmar => 213,
    Blk::MyanmarExtA => 214,
    Blk::MyanmarExtB => 215,
    Blk::Nabataean => 216,
    Blk::NagMundari => 217,
    Blk::Nandinagari => 218,
    Blk::Nb => 219,
    Blk::NewTaiLue => 220,
    Blk::Newa => 221,
    Blk::Nko => 222,
    Blk::NumberForms => 223,
    Blk::Nushu => 224,
    Blk::NyiakengPuachueHmong => 225,
    Blk::Ocr => 226,
    Blk::Ogham => 227,
    Blk::OlChiki => 228,
    Blk::OldHungarian => 229,
    Blk::OldItalic => 230,
    Blk::OldNorthArabian => 231,
    Blk::OldPermic => 232,
    Blk::OldPersian => 233,
    Blk::OldSogdian => 234,
    Blk::OldSouthArabian => 235,
    Blk::OldTurkic => 236,
    Blk::OldUyghur => 237,
    Blk::Oriya => 238,
    Blk::OrnamentalDingbats => 239,
    Blk::Osage => 240,
    Blk::Osmanya => 241,
    Blk::OttomanSiyaqNumbers => 242,
    Blk::PahawhHmong => 243,
    Blk::Palmyrene => 244,
    Blk::PauCinHau => 245,
    Blk::PhagsPa => 246,
    Blk::Phaistos => 247,
    Blk::Phoenician => 248,
    Blk::PhoneticExt => 249,
    Blk::PhoneticExtSup => 250,
    Blk::PlayingCards => 251,
    Blk::PsalterPahlavi => 252,
    Blk::Pua => 253,
    Blk::Punctuation => 254,
    Blk::Rejang => 255,
    Blk::Rumi => 256,
    Blk::Runic => 257,
    Blk::Samaritan => 258,
    Blk::Saurashtra => 259,
    Blk::Sharada => 260,
    Blk::Shavian => 261,
    Blk::ShorthandFormatControls => 262,
    Blk::Siddham => 263,
    Blk::Sinhala => 264,
    Blk::SinhalaArchaicNumbers => 265,
    Blk::SmallForms => 266,
    Blk::SmallKanaExt => 267,
    Blk::Sogdian => 268,
    Blk::SoraSompeng => 269,
    Blk::Soyombo => 270,
    Blk::Specials => 271,
    Blk::Sundanese => 272,
    Blk::SundaneseSup => 273,
    Blk::SupArrowsA => 274,
    Blk::SupArrowsB => 275,
    Blk::SupArrowsC => 276,
    Blk::SupMathOperators => 277,
    Blk::SupPuaA => 278,
    Blk::SupPuaB => 279,
    Blk::SupPunctuation => 280,
    Blk::SupSymbolsAndPictographs => 281,
    Blk::SuperAndSub => 282,
    Blk::SuttonSignwriting => 283,
    Blk::SylotiNagri => 284,
    Blk::SymbolsAndPictographsExtA => 285,
    Blk::SymbolsForLegacyComputing => 286,
    Blk::Syriac => 287,
    Blk::SyriacSup => 288,
    Blk::Tagalog => 289,
    Blk::Tagbanwa => 290,
    Blk::Tags => 291,
    Blk::TaiLe => 292,
    Blk::TaiTham => 293,
    Blk::TaiViet => 294,
    Blk::TaiXuanJing => 295,
    Blk::Takri => 296,
    Blk::Tamil => 297,
    Blk::TamilSup => 298,
    Blk::Tangsa => 299,
    Blk::Tangut => 300,
    Blk::TangutComponents => 301,
    Blk::TangutSup => 302,
    Blk::Telugu => 303,
    Blk::Thaana => 304,
    Blk::Thai => 305,
    Blk::Tibetan => 306,
    Blk::Tifinagh => 307,
    Blk::Tirhuta => 308,
    Blk::Toto => 309,
    Blk::TransportAndMap => 310,
    Blk::Ucas => 311,
    Blk::UcasExt => 312,
    Blk::UcasExtA => 313,
    Blk::Ugaritic => 314,
    Blk::Vai => 315,
    Blk::VedicExt => 316,
    Blk::VerticalForms => 317,
    Blk::Vithkuqi => 318,
    Blk::Vs => 319,
    Blk::VsSup => 320,
    Blk::Wancho => 321,
    Blk::WarangCiti => 322,
    Blk::Yezidi => 323,
    Blk::YiRadicals => 324,
    Blk::YiSyllables => 325,
    Blk::Yijing => 326,
    Blk::ZanabazarSquare => 327,
    Blk::ZnamennyMusic => 328,
    _ => 0xFFFF,
} }
pub const BLK_ALL: [Blk; 329] = [Blk::Adlam, Blk::AegeanNumbers, Blk::Ahom, Blk::Alchemical, Blk::AlphabeticPf, Blk::AnatolianHieroglyphs, Blk::AncientGreekMusic, Blk::AncientGreekNumbers, Blk::AncientSymbols, Blk::Arabic, Blk::ArabicExtA, Blk::ArabicExtB, Blk::ArabicExtC, Blk::ArabicMath, Blk::ArabicPfA, Blk::ArabicPfB, Blk::ArabicSup, Blk::Armenian, Blk::Arrows, Blk::Ascii, Blk::Avestan, Blk::Balinese, Blk::Bamum, Blk::BamumSup, Blk::BassaVah, Blk::Batak, Blk::Bengali, Blk::Bhaiksuki, Blk::BlockElements, Blk::Bopomofo, Blk::BopomofoExt, Blk::BoxDrawing, Blk::Brahmi, Blk::Braille, Blk::Buginese, Blk::Buhid, Blk::ByzantineMusic, Blk::Carian, Blk::CaucasianAlbanian, Blk::Chakma, Blk::Cham, Blk::Cherokee, Blk::CherokeeSup, Blk::ChessSymbols, Blk::Chorasmian, Blk::Cjk, Blk::CjkCompat, Blk::CjkCompatForms, Blk::CjkCompatIdeographs, Blk::CjkCompatIdeographsSup, Blk::CjkExtA, Blk::CjkExtB, Blk::CjkExtC, Blk::CjkExtD, Blk::CjkExtE, Blk::CjkExtF, Blk::CjkExtG, Blk::CjkExtH, Blk::CjkExtI, Blk::CjkRadicalsSup, Blk::CjkStrokes, Blk::CjkSymbols, Blk::CompatJamo, Blk::ControlPictures, Blk::Coptic, Blk::CopticEpactNumbers, Blk::CountingRod, Blk::Cuneiform, Blk::CuneiformNumbers, Blk::CurrencySymbols, Blk::CypriotSyllabary, Blk::CyproMinoan, Blk::Cyrillic, Blk::CyrillicExtA, Blk::CyrillicExtB, Blk::CyrillicExtC, Blk::CyrillicExtD, Blk::CyrillicSup, Blk::Deseret, Blk::Devanagari, Blk::DevanagariExt, Blk::DevanagariExtA, Blk::Diacriticals, Blk::DiacriticalsExt, Blk::DiacriticalsForSymbols, Blk::DiacriticalsSup, Blk::Dingbats, Blk::DivesAkuru, Blk::Dogra, Blk::Domino, Blk::Duployan, Blk::EarlyDynasticCuneiform, Blk::EgyptianHieroglyphFormatControls, Blk::EgyptianHieroglyphs, Blk::Elbasan, Blk::Elymaic, Blk::Emoticons, Blk::EnclosedAlphanum, Blk::EnclosedAlphanumSup, Blk::EnclosedCjk, Blk::EnclosedIdeographicSup, Blk::Ethiopic, Blk::EthiopicExt, Blk::EthiopicExtA, Blk::EthiopicExtB, Blk::EthiopicSup, Blk::GeometricShapes, Blk::GeometricShapesExt, Blk::Georgian, Blk::GeorgianExt, Blk::GeorgianSup, Blk::Glagolitic, Blk::GlagoliticSup, Blk::Gothic, Blk::Grantha, Blk::Greek, Blk::GreekExt, Blk::Gujarati, Blk::GunjalaGondi, Blk::Gurmukhi, Blk::HalfAndFullForms, Blk::HalfMarks, Blk::Hangul, Blk::HanifiRohingya, Blk::Hanunoo, Blk::Hatran, Blk::Hebrew, Blk::HighPuSurrogates, Blk::HighSurrogates, Blk::Hiragana, Blk::Idc, Blk::IdeographicSymbols, Blk::ImperialAramaic, Blk::IndicNumberForms, Blk::IndicSiyaqNumbers, Blk::InscriptionalPahlavi, Blk::InscriptionalParthian, Blk::IpaExt, Blk::Jamo, Blk::JamoExtA, Blk::JamoExtB, Blk::Javanese, Blk::Kaithi, Blk::KaktovikNumerals, Blk::KanaExtA, Blk::KanaExtB, Blk::KanaSup, Blk::Kanbun, Blk::Kangxi, Blk::Kannada, Blk::Katakana, Blk::KatakanaExt, Blk::Kawi, Blk::KayahLi, Blk::Kharoshthi, Blk::KhitanSmallScript, Blk::Khmer, Blk::KhmerSymbols, Blk::Khojki, Blk::Khudawadi, Blk::Lao, Blk::Latin1Sup, Blk::LatinExtA, Blk::LatinExtAdditional, Blk::LatinExtB, Blk::LatinExtC, Blk::LatinExtD, Blk::LatinExtE, Blk::LatinExtF, Blk::LatinExtG, Blk::Lepcha, Blk::LetterlikeSymbols, Blk::Limbu, Blk::LinearA, Blk::LinearBIdeograms, Blk::LinearBSyllabary, Blk::Lisu, Blk::LisuSup, Blk::LowSurrogates, Blk::Lycian, Blk::Lydian, Blk::Mahajani, Blk::Mahjong, Blk::Makasar, Blk::Malayalam, Blk::Mandaic, Blk::Manichaean, Blk::Marchen, Blk::MasaramGondi, Blk::MathAlphanum, Blk::MathOperators, Blk::MayanNumerals, Blk::Medefaidrin, Blk::MeeteiMayek, Blk::MeeteiMayekExt, Blk::MendeKikakui, Blk::MeroiticCursive, Blk::MeroiticHieroglyphs, Blk::Miao, Blk::MiscArrows, Blk::MiscMathSymbolsA, Blk::MiscMathSymbolsB, Blk::MiscPictographs, Blk::MiscSymbols, Blk::MiscTechnical, Blk::Modi, Blk::ModifierLetters, Blk::ModifierToneLetters, Blk::Mongolian, Blk::MongolianSup, Blk::Mro, Blk::Multani, Blk::Music, Blk::Myanmar, Blk::MyanmarExtA, Blk::MyanmarExtB, Blk::Nabataean, Blk::NagMundari, Blk::Nandinagari, Blk::Nb, Blk::NewTaiLue, Blk::Newa, Blk::Nko, Blk::NumberForms, Blk::Nushu, Blk::NyiakengPuachueHmong, Blk::Ocr, Blk::Ogham, Blk::OlChiki, Blk::OldHungarian, Blk::OldItalic, Blk::OldNorthArabian, Blk::OldPermic, Blk::OldPersian, Blk::OldSogdian, Blk::OldSouthArabian, Blk::OldTurkic, Blk::OldUyghur, Blk::Oriya, Blk::OrnamentalDingbats, Blk::Osage, Blk::Osmanya, Blk::OttomanSiyaqNumbers, Blk::PahawhHmong, Blk::Palmyrene, Blk::PauCinHau, Blk::PhagsPa, Blk::Phaistos, Blk::Phoenician, Blk::PhoneticExt, Blk::PhoneticExtSup, Blk::PlayingCards, Blk::PsalterPahlavi, Blk::Pua, Blk::Punctuation, Blk::Rejang, Blk::Rumi, Blk::Runic, Blk::Samaritan, Blk::Saurashtra, Blk::Sharada, Blk::Shavian, Blk::ShorthandFormatControls, Blk::Siddham, Blk::Sinhala, Blk::SinhalaArchaicNumbers, Blk::SmallForms, Blk::SmallKanaExt, Blk::Sogdian, Blk::SoraSompeng, Blk::Soyombo, Blk::Specials, Blk::Sundanese, Blk::SundaneseSup, Blk::SupArrowsA, Blk::SupArrowsB, Blk::SupArrowsC, Blk::SupMathOperators, Blk::SupPuaA, Blk::SupPuaB, Blk::SupPunctuation, Blk::SupSymbolsAndPictographs, Blk::SuperAndSub, Blk::SuttonSignwriting, Blk::SylotiNagri, Blk::SymbolsAndPictographsExtA, Blk::SymbolsForLegacyComputing, Blk::Syriac, Blk::SyriacSup, Blk::Tagalog, Blk::Tagbanwa, Blk::Tags, Blk::TaiLe, Blk::TaiTham, Blk::TaiViet, Blk::TaiXuanJing, Blk::Takri, Blk::Tamil, Blk::TamilSup, Blk::Tangsa, Blk::Tangut, Blk::TangutComponents, Blk::TangutSup, Blk::Telugu, Blk::Thaana, Blk::Thai, Blk::Tibetan, Blk::Tifinagh, Blk::Tirhuta, Blk::Toto, Blk::TransportAndMap, Blk::Ucas, Blk::UcasExt, Blk::UcasExtA, Blk::Ugaritic, Blk::Vai, Blk::VedicExt, Blk::VerticalForms, Blk::Vithkuqi, Blk::Vs, Blk::VsSup, Blk::Wancho, Blk::WarangCiti, Blk::Yezidi, Blk::YiRadicals, Blk::YiSyllables, Blk::Yijing, Blk::ZanabazarSquare, Blk::ZnamennyMusic];
#[allow(unreachable_patterns)]
#[inline(never)]
pub fn sc_id(x: Sc) -> u32 { match x {
    Sc::Adlm => 0,
    Sc::Aghb => 1,
    Sc::Ahom => 2,
    Sc::Arab => 3,
    Sc::Armi => 4,
    Sc::Armn => 5,
    Sc::Avst => 6,
    Sc::Bali => 7,
    Sc::Bamu => 8,
    Sc::Bass => 9,
    Sc::Batk => 10,
    Sc::Beng => 11,
    Sc::Bhks => 12,
    Sc::Bopo => 13,
    Sc::Brah => 14,
    Sc::Brai => 15,
    Sc::Bugi => 16,
    Sc::Buhd => 17,
    Sc::Cakm => 18,
    Sc::Cans => 19,
    Sc::Cari => 20,
    Sc::Cham => 21,
    Sc::Cher => 22,
    Sc::Chrs => 23,
    Sc::Copt => 24,
    Sc::Cpmn => 25,
    Sc::Cprt => 26,
    Sc::Cyrl => 27,
    Sc::Deva => 28,
    Sc::Diak => 29,
    Sc::Dogr => 30,
    Sc::Dsrt => 31,
    Sc::Dupl => 32,
    Sc::Egyp => 33,
    Sc::Elba => 34,
    Sc::Elym => 35,
    Sc::Ethi => 36,
    Sc::Geor => 37,
    Sc::Glag => 38,
    Sc::Gong => 39,
    Sc::Gonm => 40,
    Sc::Goth => 41,
    Sc::Gran => 42,
    Sc::Grek => 43,
    Sc::Gujr => 44,
    Sc::Guru => 45,
    Sc::Hang => 46,
    Sc::Hani => 47,
    Sc::Hano => 48,
    Sc::Hatr => 49,
    Sc::Hebr => 50,
    Sc::Hira => 51,
    Sc::Hluw => 52,
    Sc::Hmng => 53,
    Sc::Hmnp => 54,
    Sc::Hrkt => 55,
    Sc::Hung => 56,
    Sc::Ital => 57,
    Sc::Java => 58,
    Sc::Kali => 59,
    Sc::Kana => 60,
    Sc::Kawi => 61,
    Sc::Khar => 62,
    Sc::Khmr => 63,
    Sc::Khoj => 64,
    Sc::Kits => 65,
    Sc::Knda => 66,
    Sc::Kthi => 67,
    Sc::Lana => 68,
    Sc::Laoo => 69,
    Sc::Latn => 70,
    Sc::Lepc => 71,
    Sc::Limb => 72,
    Sc::Lina => 73,
    Sc::Linb => 74,
    Sc::Lisu => 75,
    Sc::Lyci => 76,
    Sc::Lydi => 77,
    Sc::Mahj => 78,
    Sc::Maka => 79,
    Sc::Mand => 80,
    Sc::Mani => 81,
    Sc::Marc => 82,
    Sc::Medf => 83,
    Sc::Mend => 84,
    Sc::Merc => 85,
    Sc::Mero => 86,
    Sc::Mlym => 87,
    Sc::Modi => 88,
    Sc::Mong => 89,
    Sc::Mroo => 90,
    Sc::Mtei => 91,
    Sc::Mult => 92,
    Sc::Mymr => 93,
    Sc::Nagm => 94,
    Sc::Nand => 95,
    Sc::Narb => 96,
    Sc::Nbat => 97,
    Sc::Newa => 98,
    Sc::Nkoo => 99,
    Sc::Nshu => 100,
    Sc::Ogam => 101,
    Sc::Olck => 102,
    Sc::Orkh => 103,
    Sc::Orya => 104,
    Sc::Osge => 105,
    Sc::Osma => 106,
    Sc::Ougr => 107,
    Sc::Palm => 108,
    Sc::Pauc => 109,
    Sc::Perm => 110,
    Sc::Phag => 111,
    Sc::Phli => 112,
    Sc::Phlp => 113,
    Sc::Phnx => 114,
    Sc::Plrd => 115,
    Sc::Prti => 116,
    Sc::Rjng => 117,
    Sc::Rohg => 118,
    Sc::Runr => 119,
    Sc::Samr => 120,
    Sc::Sarb => 121,
    Sc::Saur => 122,
    Sc::Sgnw => 123,
    Sc::Shaw => 124,
    Sc::Shrd => 125,
    Sc::Sidd => 126,
    Sc::Sind => 127,
    Sc::Sinh => 128,
    Sc::Sogd => 129,
    Sc::Sogo => 130,
    Sc::Sora => 131,
    Sc::Soyo => 132,
    Sc::Sund => 133,
    Sc::Sylo => 134,
    Sc::Syrc => 135,
    Sc::Tagb => 136,
    Sc::Takr => 137,
    Sc::Tale => 138,
    Sc::Talu => 139,
    Sc::Taml => 140,
    Sc::Tang => 141,
    Sc::Tavt => 142,
    Sc::Telu => 143,
    Sc::Tfng => 144,
    Sc::Tglg => 145,
    Sc::Thaa => 146,
    Sc::Thai => 147,
    Sc::Tibt => 148,
    Sc::Tirh => 149,
    Sc::Tnsa => 150,
    Sc::Toto => 151,
    Sc::Ugar => 152,
    Sc::Vaii => 153,
    Sc::Vith => 154,
    Sc::Wara => 155,
    Sc::Wcho => 156,
    Sc::Xpeo => 157,
    Sc::Xsux => 158,
    Sc::Yezi => 159,
    Sc::Yiii => 160,
    Sc::Zanb => 161,
    Sc::Zinh => 162,
    Sc::Zyyy => 163,
    Sc::Zzzz => 164,
    _ => 0xFFFF,
} }
pub const SC_ALL: [Sc; 165] = [Sc::Adlm, Sc::Aghb, Sc::Ahom, Sc::Arab, Sc::Armi, Sc::Armn, Sc::Avst, Sc::Bali, Sc::Bamu, Sc::Bass, Sc::Batk, Sc::Beng, Sc::Bhks, Sc::Bopo, Sc::Brah, Sc::Brai, Sc::Bugi, Sc::Buhd, Sc::Cakm, Sc::Cans, Sc::Cari, Sc::Cham, Sc::Cher, Sc::Chrs, Sc::Copt, Sc::Cpmn, Sc::Cprt, Sc::Cyrl, Sc::Deva, Sc::Diak, Sc::Dogr, Sc::Dsrt, Sc::Dupl, Sc::Egyp, Sc::Elba, Sc::Elym, Sc::Ethi, Sc::Geor, Sc::Glag, Sc::Gong, Sc::Gonm, Sc::Goth, Sc::Gran, Sc::Grek, Sc::Gujr, Sc::Guru, Sc::Hang, Sc::Hani, Sc::Hano, Sc::Hatr, Sc::Hebr, Sc::Hira, Sc::Hluw, Sc::Hmng, Sc::Hmnp, Sc::Hrkt, Sc::Hung, Sc::Ital, Sc::Java, Sc::Kali, Sc::Kana, Sc::Kawi, Sc::Khar, Sc::Khmr, Sc::Khoj, Sc::Kits, Sc::Knda, Sc::Kthi, Sc::Lana, Sc::Laoo, Sc::Latn, Sc::Lepc, Sc::Limb, Sc::Lina, Sc::Linb, Sc::Lisu, Sc::Lyci, Sc::Lydi, Sc::Mahj, Sc::Maka, Sc::Mand, Sc::Mani, Sc::Marc, Sc::Medf, Sc::Mend, Sc::Merc, Sc::Mero, Sc::Mlym, Sc::Modi, Sc::Mong, Sc::Mroo, Sc::Mtei, Sc::Mult, Sc::Mymr, Sc::Nagm, Sc::Nand, Sc::Narb, Sc::Nbat, Sc::Newa, Sc::Nkoo, Sc::Nshu, Sc::Ogam, Sc::Olck, Sc::Orkh, Sc::Orya, Sc::Osge, Sc::Osma, Sc::Ougr, Sc::Palm, Sc::Pauc, Sc::Perm, Sc::Phag, Sc::Phli, Sc::Phlp, Sc::Phnx, Sc::Plrd, Sc::Prti, Sc::Rjng, Sc::Rohg, Sc::Runr, Sc::Samr, Sc::Sarb, Sc::Saur, Sc::Sgnw, Sc::Shaw, Sc::Shrd, Sc::Sidd, Sc::Sind, Sc::Sinh, Sc::Sogd, Sc::Sogo, Sc::Sora, Sc::Soyo, Sc::Sund, Sc::Sylo, Sc::Syrc, Sc::Tagb, Sc::Takr, Sc::Tale, Sc::Talu, Sc::Taml, Sc::Tang, Sc::Tavt, Sc::Telu, Sc::Tfng, Sc::Tglg, Sc::Thaa, Sc::Thai, Sc::Tibt, Sc::Tirh, Sc::Tnsa, Sc::Toto, Sc::Ugar, Sc::Vaii, Sc::Vith, Sc::Wara, Sc::Wcho, Sc::Xpeo, Sc::Xsux, Sc::Yezi, Sc::Yiii, Sc::Zanb, Sc::Zinh, Sc::Zyyy, Sc::Zzzz];
#[allow(unreachable_patterns)]
#[inline(never)]
pub fn age_id(x: Age) -> u32 { match x {
    Age::V1_1 => 0,
    Age::V2_0 => 1,
    Age::V2_1 => 2,
    Age::V3_0 => 3,
    Age::V3_1 => 4,
    Age::V3_2 => 5,
    Age::V4_0 => 6,
    Age::V4_1 => 7,
    Age::V5_0 => 8,
    Age::V5_1 => 9,
    Age::V5_2 => 10,
    Age::V6_0 => 11,
    Age::V6_1 => 12,
    Age::V6_2 => 13,
    Age::V6_3 => 14,
    Age::V7_0 => 15,
    Age::V8_0 => 16,
    Age::V9_0 => 17,
    Age::V10_0 => 18,
    Age::V11_0 => 19,
    Age::V12_0 => 20,
    Age::V12_1 => 21,
    Age::V13_0 => 22,
    Age::V14_0 => 23,
    Age::V15_0 => 24,
    Age::V15_1 => 25,
    Age::NA => 26,
    _ => 0xFFFF,
} }
pub const AGE_ALL: [Age; 27] = [Age::V1_1, Age::V2_0, Age::V2_1, Age::V3_0, Age::V3_1, Age::V3_2, Age::V4_0, Age::V4_1, Age::V5_0, Age::V5_1, Age::V5_2, Age::V6_0, Age::V6_1, Age::V6_2, Age::V6_3, Age::V7_0, Age::V8_0, Age::V9_0, Age::V10_0, Age::V11_0, Age::V12_0, Age::V12_1, Age::V13_0, Age::V14_0, Age::V15_0, Age::V15_1, Age::NA];
#[allow(unreachable_patterns)]
#[inline(never)]
pub fn wb_id(x: Wb) -> u32 { match x {
    Wb::CR => 0,
    Wb::DQ => 1,
    Wb::EB => 2,
    Wb::EBG => 3,
    Wb::EM => 4,
    Wb::EX => 5,
    Wb::Extend => 6,
    Wb::FO => 7,
    Wb::GAZ => 8,
    Wb::HL => 9,
    Wb::KA => 10,
    Wb::LE => 11,
    Wb::LF => 12,
    Wb::MB => 13,
    Wb::ML => 14,
    Wb::MN => 15,
    Wb::NL => 16,
    Wb::NU => 17,
    Wb::RI => 18,
    Wb::SQ => 19,
    Wb::WSegSpace => 20,
    Wb::XX => 21,
    Wb::ZWJ => 22,
    _ => 0xFFFF,
} }
pub const WB_ALL: [Wb; 23] = [Wb::CR, Wb::DQ, Wb::EB, Wb::EBG, Wb::EM, Wb::EX, Wb::Extend, Wb::FO, Wb::GAZ, Wb::HL, Wb::KA, Wb::LE, Wb::LF, Wb::MB, Wb::ML, Wb::MN, Wb::NL, Wb::NU, Wb::RI, Wb::SQ, Wb::WSegSpace, Wb::XX, Wb::ZWJ];
#[allow(unreachable_patterns)]
#[inline(never)]
pub fn insc_id(x: Insc) -> u32 { match x {
    Insc::Avagraha => 0,
    Insc::Bindu => 1,
    Insc::Brahmi_Joining_Number => 2,
    Insc::Cantillation_Mark => 3,
    Insc::Consonant => 4,
    Insc::Consonant_Dead => 5,
    Insc::Consonant_Final => 6,
    Insc::Consonant_Head_Letter => 7,
    Insc::Consonant_Initial_Postfixed => 8,
    Insc::Consonant_Killer => 9,
    Insc::Consonant_Medial => 10,
    Insc::Consonant_Placeholder => 11,
    Insc::Consonant_Preceding_Repha => 12,
    Insc::Consonant_Prefixed => 13,
    Insc::Consonant_Subjoined => 14,
    Insc::Consonant_Succeeding_Repha => 15,
    Insc::Consonant_With_Stacker => 16,
    Insc::Gemination_Mark => 17,
    Insc::Invisible_Stacker => 18,
    Insc::Joiner => 19,
    Insc::Modifying_Letter => 20,
    Insc::Non_Joiner => 21,
    Insc::Nukta => 22,
    Insc::Number => 23,
    Insc::Number_Joiner => 24,
    Insc::Other => 25,
    Insc::Pure_Killer => 26,
    Insc::Register_Shifter => 27,
    Insc::Syllable_Modifier => 28,
    Insc::Tone_Letter => 29,
    Insc::Tone_Mark => 30,
    Insc::Virama => 31,
    Insc::Visarga => 32,
    Insc::Vowel => 33,
    Insc::Vowel_Dependent => 34,
    Insc::Vowel_Independent => 35,
    _ => 0xFFFF,
} }
pub const INSC_ALL: [Insc; 36] = [Insc::Avagraha, Insc::Bindu, Insc::Brahmi_Joining_Number, Insc::Cantillation_Mark, Insc::Consonant, Insc::Consonant_Dead, Insc::Consonant_Final, Insc::Consonant_Head_Letter, Insc::Consonant_Initial_Postfixed, Insc::Consonant_Killer, Insc::Consonant_Medial, Insc::Consonant_Placeholder, Insc::Consonant_Preceding_Repha, Insc::Consonant_Prefixed, Insc::Consonant_Subjoined, Insc::Consonant_Succeeding_Repha, Insc::Consonant_With_Stacker, Insc::Gemination_Mark, Insc::Invisible_Stacker, Insc::Joiner, Insc::Modifying_Letter, Insc::Non_Joiner, Insc::Nukta, Insc::Number, Insc::Number_Joiner, Insc::Other, Insc::Pure_Killer, Insc::Register_Shifter, Insc::Syllable_Modifier, Insc::Tone_Letter, Insc::Tone_Mark, Insc::Virama, Insc::Visarga, Insc::Vowel, Insc::Vowel_Dependent, Insc::Vowel_Independent];
#[allow(unreachable_patterns)]
#[inline(never)]
pub fn incb_id(x: Incb) -> u32 { match x {
    Incb::Consonant => 0,
    Incb::Extend => 1,
    Incb::Linker => 2,
    Incb::None => 3,
    _ => 0xFFFF,
} }
pub const INCB_ALL: [Incb; 4] = [Incb::Consonant, Incb::Extend, Incb::Linker, Incb::None];
pub const G_DUMMY: u32 = 0;
pub const G_CN: u32 = 0;
pub const G_CR: u32 = 1;
pub const G_EB: u32 = 2;
pub const G_EBG: u32 = 3;
pub const G_EM: u32 = 4;
pub const G_EX: u32 = 5;
pub const G_GAZ: u32 = 6;
pub const G_L: u32 = 7;
pub const G_LF: u32 = 8;
pub const G_LV: u32 = 9;
pub const G_LVT: u32 = 10;
pub const G_PP: u32 = 11;
pub const G_RI: u32 = 12;
pub const G_SM: u32 = 13;
pub const G_T: u32 = 14;
pub const G_V: u32 = 15;
pub const G_XX: u32 = 16;
pub const G_ZWJ: u32 = 17;
pub const IC_CONSONANT: u32 = 0;
pub const IC_EXTEND: u32 = 1;
pub const IC_LINKER: u32 = 2;
pub const IC_NONE: u32 = 3;
pub const DT_CAN: u32 = 0;
