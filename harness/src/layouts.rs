//! Run-time described layouts. Written by tools/gen_layouts.py.
use crate::kinds::{dyn_drop, DynClass, DK};

macro_rules! dc {
    ($s:literal, $a:literal, $k:literal) => {
        DynClass { size: $s, align: $a, drop: None, key: DK + $k }
    };
    ($s:literal, $a:literal, $k:literal, drop) => {
        DynClass { size: $s, align: $a, drop: Some(dyn_drop::<$s, $a, { DK + $k }>), key: DK + $k }
    };
}
/// the first ones are the basic choice, the others a grid of all small sizes and alignments, and some large ones
pub const BASIC_DYN: usize = 20;
pub static DYN: [DynClass; 346] = [
    dc!(1, 1, 0),
    dc!(2, 2, 1),
    dc!(4, 4, 2),
    dc!(8, 8, 3),
    dc!(16, 16, 4),
    dc!(24, 8, 5),
    dc!(40, 8, 6),
    dc!(64, 64, 7),
    dc!(48, 16, 8),
    dc!(1000, 8, 9),
    dc!(4096, 4096, 10),
    dc!(12, 4, 11),
    dc!(7, 1, 12),
    dc!(0, 1, 13),
    dc!(0, 64, 14),
    dc!(0, 32, 15, drop),
    dc!(16, 8, 16, drop),
    dc!(32, 32, 17, drop),
    dc!(1024, 16, 18, drop),
    dc!(256, 128, 19, drop),
    dc!(2, 1, 20),
    dc!(3, 1, 21),
    dc!(4, 1, 22),
    dc!(5, 1, 23),
    dc!(6, 1, 24),
    dc!(8, 1, 25),
    dc!(8, 1, 26, drop),
    dc!(9, 1, 27),
    dc!(9, 1, 28, drop),
    dc!(10, 1, 29),
    dc!(11, 1, 30),
    dc!(12, 1, 31),
    dc!(12, 1, 32, drop),
    dc!(13, 1, 33),
    dc!(14, 1, 34),
    dc!(15, 1, 35),
    dc!(15, 1, 36, drop),
    dc!(16, 1, 37),
    dc!(16, 1, 38, drop),
    dc!(17, 1, 39),
    dc!(18, 1, 40, drop),
    dc!(19, 1, 41),
    dc!(20, 1, 42),
    dc!(21, 1, 43, drop),
    dc!(22, 1, 44),
    dc!(23, 1, 45),
    dc!(24, 1, 46, drop),
    dc!(25, 1, 47),
    dc!(26, 1, 48),
    dc!(27, 1, 49, drop),
    dc!(28, 1, 50),
    dc!(29, 1, 51),
    dc!(30, 1, 52, drop),
    dc!(31, 1, 53),
    dc!(32, 1, 54),
    dc!(32, 1, 55, drop),
    dc!(33, 1, 56, drop),
    dc!(34, 1, 57),
    dc!(35, 1, 58),
    dc!(36, 1, 59, drop),
    dc!(37, 1, 60),
    dc!(38, 1, 61),
    dc!(39, 1, 62, drop),
    dc!(40, 1, 63, drop),
    dc!(41, 1, 64),
    dc!(42, 1, 65, drop),
    dc!(43, 1, 66),
    dc!(44, 1, 67),
    dc!(45, 1, 68, drop),
    dc!(46, 1, 69),
    dc!(47, 1, 70),
    dc!(48, 1, 71),
    dc!(48, 1, 72, drop),
    dc!(49, 1, 73),
    dc!(50, 1, 74),
    dc!(51, 1, 75, drop),
    dc!(52, 1, 76),
    dc!(53, 1, 77),
    dc!(54, 1, 78, drop),
    dc!(55, 1, 79),
    dc!(56, 1, 80, drop),
    dc!(57, 1, 81, drop),
    dc!(58, 1, 82),
    dc!(59, 1, 83),
    dc!(60, 1, 84, drop),
    dc!(61, 1, 85),
    dc!(62, 1, 86),
    dc!(63, 1, 87, drop),
    dc!(64, 1, 88),
    dc!(64, 1, 89, drop),
    dc!(65, 1, 90),
    dc!(66, 1, 91, drop),
    dc!(67, 1, 92),
    dc!(68, 1, 93),
    dc!(69, 1, 94, drop),
    dc!(70, 1, 95),
    dc!(71, 1, 96),
    dc!(72, 1, 97, drop),
    dc!(73, 1, 98),
    dc!(74, 1, 99),
    dc!(75, 1, 100, drop),
    dc!(76, 1, 101),
    dc!(77, 1, 102),
    dc!(78, 1, 103, drop),
    dc!(79, 1, 104),
    dc!(80, 1, 105),
    dc!(80, 1, 106, drop),
    dc!(81, 1, 107, drop),
    dc!(82, 1, 108),
    dc!(83, 1, 109),
    dc!(84, 1, 110, drop),
    dc!(85, 1, 111),
    dc!(86, 1, 112),
    dc!(87, 1, 113, drop),
    dc!(88, 1, 114, drop),
    dc!(89, 1, 115),
    dc!(90, 1, 116, drop),
    dc!(91, 1, 117),
    dc!(92, 1, 118),
    dc!(93, 1, 119, drop),
    dc!(94, 1, 120),
    dc!(95, 1, 121),
    dc!(96, 1, 122),
    dc!(96, 1, 123, drop),
    dc!(97, 1, 124),
    dc!(98, 1, 125),
    dc!(99, 1, 126, drop),
    dc!(100, 1, 127),
    dc!(101, 1, 128),
    dc!(102, 1, 129, drop),
    dc!(103, 1, 130),
    dc!(104, 1, 131, drop),
    dc!(105, 1, 132, drop),
    dc!(106, 1, 133),
    dc!(107, 1, 134),
    dc!(108, 1, 135, drop),
    dc!(109, 1, 136),
    dc!(110, 1, 137),
    dc!(111, 1, 138, drop),
    dc!(112, 1, 139),
    dc!(112, 1, 140, drop),
    dc!(113, 1, 141),
    dc!(114, 1, 142, drop),
    dc!(115, 1, 143),
    dc!(116, 1, 144),
    dc!(117, 1, 145, drop),
    dc!(118, 1, 146),
    dc!(119, 1, 147),
    dc!(120, 1, 148, drop),
    dc!(121, 1, 149),
    dc!(122, 1, 150),
    dc!(123, 1, 151, drop),
    dc!(124, 1, 152),
    dc!(125, 1, 153),
    dc!(126, 1, 154, drop),
    dc!(127, 1, 155),
    dc!(128, 1, 156),
    dc!(128, 1, 157, drop),
    dc!(4, 2, 158),
    dc!(6, 2, 159),
    dc!(8, 2, 160),
    dc!(8, 2, 161, drop),
    dc!(10, 2, 162),
    dc!(12, 2, 163),
    dc!(12, 2, 164, drop),
    dc!(14, 2, 165),
    dc!(16, 2, 166),
    dc!(16, 2, 167, drop),
    dc!(18, 2, 168, drop),
    dc!(20, 2, 169),
    dc!(22, 2, 170),
    dc!(24, 2, 171, drop),
    dc!(26, 2, 172),
    dc!(28, 2, 173),
    dc!(30, 2, 174, drop),
    dc!(32, 2, 175),
    dc!(32, 2, 176, drop),
    dc!(34, 2, 177),
    dc!(36, 2, 178, drop),
    dc!(38, 2, 179),
    dc!(40, 2, 180, drop),
    dc!(42, 2, 181, drop),
    dc!(44, 2, 182),
    dc!(46, 2, 183),
    dc!(48, 2, 184),
    dc!(48, 2, 185, drop),
    dc!(50, 2, 186),
    dc!(52, 2, 187),
    dc!(54, 2, 188, drop),
    dc!(56, 2, 189, drop),
    dc!(58, 2, 190),
    dc!(60, 2, 191, drop),
    dc!(62, 2, 192),
    dc!(64, 2, 193),
    dc!(64, 2, 194, drop),
    dc!(66, 2, 195, drop),
    dc!(68, 2, 196),
    dc!(70, 2, 197),
    dc!(72, 2, 198, drop),
    dc!(74, 2, 199),
    dc!(76, 2, 200),
    dc!(78, 2, 201, drop),
    dc!(80, 2, 202),
    dc!(80, 2, 203, drop),
    dc!(82, 2, 204),
    dc!(84, 2, 205, drop),
    dc!(86, 2, 206),
    dc!(88, 2, 207, drop),
    dc!(90, 2, 208, drop),
    dc!(92, 2, 209),
    dc!(94, 2, 210),
    dc!(96, 2, 211),
    dc!(96, 2, 212, drop),
    dc!(98, 2, 213),
    dc!(100, 2, 214),
    dc!(102, 2, 215, drop),
    dc!(104, 2, 216, drop),
    dc!(106, 2, 217),
    dc!(108, 2, 218, drop),
    dc!(110, 2, 219),
    dc!(112, 2, 220),
    dc!(112, 2, 221, drop),
    dc!(114, 2, 222, drop),
    dc!(116, 2, 223),
    dc!(118, 2, 224),
    dc!(120, 2, 225, drop),
    dc!(122, 2, 226),
    dc!(124, 2, 227),
    dc!(126, 2, 228, drop),
    dc!(128, 2, 229),
    dc!(128, 2, 230, drop),
    dc!(8, 4, 231),
    dc!(8, 4, 232, drop),
    dc!(12, 4, 233, drop),
    dc!(16, 4, 234),
    dc!(16, 4, 235, drop),
    dc!(20, 4, 236),
    dc!(24, 4, 237, drop),
    dc!(28, 4, 238),
    dc!(32, 4, 239),
    dc!(32, 4, 240, drop),
    dc!(36, 4, 241, drop),
    dc!(40, 4, 242, drop),
    dc!(44, 4, 243),
    dc!(48, 4, 244),
    dc!(48, 4, 245, drop),
    dc!(52, 4, 246),
    dc!(56, 4, 247, drop),
    dc!(60, 4, 248, drop),
    dc!(64, 4, 249),
    dc!(64, 4, 250, drop),
    dc!(68, 4, 251),
    dc!(72, 4, 252, drop),
    dc!(76, 4, 253),
    dc!(80, 4, 254),
    dc!(80, 4, 255, drop),
    dc!(84, 4, 256, drop),
    dc!(88, 4, 257, drop),
    dc!(92, 4, 258),
    dc!(96, 4, 259),
    dc!(96, 4, 260, drop),
    dc!(100, 4, 261),
    dc!(104, 4, 262, drop),
    dc!(108, 4, 263, drop),
    dc!(112, 4, 264),
    dc!(112, 4, 265, drop),
    dc!(116, 4, 266),
    dc!(120, 4, 267, drop),
    dc!(124, 4, 268),
    dc!(128, 4, 269),
    dc!(128, 4, 270, drop),
    dc!(8, 8, 271, drop),
    dc!(16, 8, 272),
    dc!(24, 8, 273, drop),
    dc!(32, 8, 274),
    dc!(32, 8, 275, drop),
    dc!(40, 8, 276, drop),
    dc!(48, 8, 277),
    dc!(48, 8, 278, drop),
    dc!(56, 8, 279, drop),
    dc!(64, 8, 280),
    dc!(64, 8, 281, drop),
    dc!(72, 8, 282, drop),
    dc!(80, 8, 283),
    dc!(80, 8, 284, drop),
    dc!(88, 8, 285, drop),
    dc!(96, 8, 286),
    dc!(96, 8, 287, drop),
    dc!(104, 8, 288, drop),
    dc!(112, 8, 289),
    dc!(112, 8, 290, drop),
    dc!(120, 8, 291, drop),
    dc!(128, 8, 292),
    dc!(128, 8, 293, drop),
    dc!(16, 16, 294, drop),
    dc!(32, 16, 295),
    dc!(32, 16, 296, drop),
    dc!(48, 16, 297, drop),
    dc!(64, 16, 298),
    dc!(64, 16, 299, drop),
    dc!(80, 16, 300),
    dc!(80, 16, 301, drop),
    dc!(96, 16, 302),
    dc!(96, 16, 303, drop),
    dc!(112, 16, 304),
    dc!(112, 16, 305, drop),
    dc!(128, 16, 306),
    dc!(128, 16, 307, drop),
    dc!(32, 32, 308),
    dc!(64, 32, 309),
    dc!(64, 32, 310, drop),
    dc!(96, 32, 311),
    dc!(96, 32, 312, drop),
    dc!(128, 32, 313),
    dc!(128, 32, 314, drop),
    dc!(64, 64, 315, drop),
    dc!(128, 64, 316),
    dc!(128, 64, 317, drop),
    dc!(0, 1, 318, drop),
    dc!(0, 2, 319),
    dc!(0, 2, 320, drop),
    dc!(0, 4, 321),
    dc!(0, 4, 322, drop),
    dc!(0, 8, 323),
    dc!(0, 8, 324, drop),
    dc!(0, 16, 325),
    dc!(0, 16, 326, drop),
    dc!(0, 128, 327),
    dc!(0, 128, 328, drop),
    dc!(160, 32, 329),
    dc!(192, 64, 330),
    dc!(512, 512, 331),
    dc!(513, 1, 332),
    dc!(2052, 4, 333),
    dc!(6144, 2048, 334),
    dc!(16384, 16, 335),
    dc!(129, 1, 336, drop),
    dc!(192, 64, 337, drop),
    dc!(260, 4, 338, drop),
    dc!(1536, 512, 339, drop),
    dc!(4104, 8, 340, drop),
    dc!(1031, 1, 341),
    dc!(65536, 8, 342),
    dc!(255, 1, 343),
    dc!(256, 1, 344),
    dc!(257, 1, 345, drop),
];
