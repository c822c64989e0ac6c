//! The registered tags, from the specification, in the order of the registry.

pub const SCRIPTS: &[(&[u8; 4], &str, &str, &str)] = &[
    (b"adlm", "Adlam", "Adlam", ""),
    (b"ahom", "Ahom", "Ahom", ""),
    (b"hluw", "AnatolianHieroglyphs", "Anatolian Hieroglyphs", ""),
    (b"arab", "Arabic", "Arabic", ""),
    (b"armn", "Armenian", "Armenian", ""),
    (b"avst", "Avestan", "Avestan", ""),
    (b"bali", "Balinese", "Balinese", ""),
    (b"bamu", "Bamum", "Bamum", ""),
    (b"bass", "BassaVah", "Bassa Vah", ""),
    (b"batk", "Batak", "Batak", ""),
    (b"beng", "Bengali", "Bengali", ""),
    (b"bng2", "BengaliV2", "Bengali", ""),
    (b"bhks", "Bhaiksuki", "Bhaiksuki", ""),
    (b"bopo", "Bopomofo", "Bopomofo", ""),
    (b"brah", "Brahmi", "Brahmi", ""),
    (b"brai", "Braille", "Braille", ""),
    (b"bugi", "Buginese", "Buginese", ""),
    (b"buhd", "Buhid", "Buhid", ""),
    (b"byzm", "ByzantineMusic", "Byzantine Music", ""),
    (b"cans", "CanadianSyllabics", "Canadian Syllabics", ""),
    (b"cari", "Carian", "Carian", ""),
    (b"aghb", "CaucasianAlbanian", "Caucasian Albanian", ""),
    (b"cakm", "Chakma", "Chakma", ""),
    (b"cham", "Cham", "Cham", ""),
    (b"cher", "Cherokee", "Cherokee", ""),
    (b"hani", "CJKIdeographic", "CJK Ideographic", ""),
    (b"copt", "Coptic", "Coptic", ""),
    (b"cprt", "CypriotSyllabary", "Cypriot Syllabary", ""),
    (b"cyrl", "Cyrillic", "Cyrillic", ""),
    (b"DFLT", "Default", "Default", ""),
    (b"dsrt", "Deseret", "Deseret", ""),
    (b"deva", "Devanagari", "Devanagari", ""),
    (b"dev2", "DevanagariV2", "Devanagari", ""),
    (b"dupl", "Duployan", "Duployan", ""),
    (b"egyp", "EgyptianHieroglyphs", "Egyptian Hieroglyphs", ""),
    (b"elba", "Elbasan", "Elbasan", ""),
    (b"ethi", "Ethiopic", "Ethiopic", ""),
    (b"geor", "Georgian", "Georgian", ""),
    (b"glag", "Glagolitic", "Glagolitic", ""),
    (b"goth", "Gothic", "Gothic", ""),
    (b"gran", "Grantha", "Grantha", ""),
    (b"grek", "Greek", "Greek", ""),
    (b"gujr", "Gujarati", "Gujarati", ""),
    (b"gjr2", "GujaratiV2", "Gujarati", ""),
    (b"guru", "Gurmukhi", "Gurmukhi", ""),
    (b"gur2", "GurmukhiV2", "Gurmukhi", ""),
    (b"hang", "Hangul", "Hangul", ""),
    (b"jamo", "HangulJamo", "Hangul Jamo", ""),
    (b"hano", "Hanunoo", "Hanunoo", ""),
    (b"hatr", "Hatran", "Hatran", ""),
    (b"hebr", "Hebrew", "Hebrew", ""),
    (b"kana", "Hiragana", "Hiragana", ""),
    (b"armi", "ImperialAramaic", "Imperial Aramaic", ""),
    (b"phli", "InscriptionalPahlavi", "Inscriptional Pahlavi", ""),
    (b"prti", "InscriptionalParthian", "Inscriptional Parthian", ""),
    (b"java", "Javanese", "Javanese", ""),
    (b"kthi", "Kaithi", "Kaithi", ""),
    (b"knda", "Kannada", "Kannada", ""),
    (b"knd2", "KannadaV2", "Kannada", ""),
    (b"kana", "Katakana", "Katakana", ""),
    (b"kali", "KayahLi", "Kayah Li", ""),
    (b"khar", "Kharosthi", "Kharosthi", ""),
    (b"khmr", "Khmer", "Khmer", ""),
    (b"khoj", "Khojki", "Khojki", ""),
    (b"sind", "Khudawadi", "Khudawadi", ""),
    (b"lao ", "Lao", "Lao", ""),
    (b"latn", "Latin", "Latin", ""),
    (b"lepc", "Lepcha", "Lepcha", ""),
    (b"limb", "Limbu", "Limbu", ""),
    (b"lina", "LinearA", "Linear A", ""),
    (b"linb", "LinearB", "Linear B", ""),
    (b"lisu", "Lisu", "Lisu (Fraser)", ""),
    (b"lyci", "Lycian", "Lycian", ""),
    (b"lydi", "Lydian", "Lydian", ""),
    (b"mahj", "Mahajani", "Mahajani", ""),
    (b"mlym", "Malayalam", "Malayalam", ""),
    (b"mlm2", "MalayalamV2", "Malayalam", ""),
    (b"mand", "Mandaic", "Mandaic, Mandaean", ""),
    (b"mani", "Manichaean", "Manichaean", ""),
    (b"marc", "Marchen", "Marchen", ""),
    (b"math", "MathematicalAlphanumericSymbols", "Mathematical Alphanumeric Symbols", ""),
    (b"mtei", "MeiteiMayek", "Meitei Mayek (Meithei, Meetei)", ""),
    (b"mend", "MendeKikakui", "Mende Kikakui", ""),
    (b"merc", "MeroiticCursive", "Meroitic Cursive", ""),
    (b"mero", "MeroiticHieroglyphs", "Meroitic Hieroglyphs", ""),
    (b"plrd", "Miao", "Miao", ""),
    (b"modi", "Modi", "Modi", ""),
    (b"mong", "Mongolian", "Mongolian", ""),
    (b"mroo", "Mro", "Mro", ""),
    (b"mult", "Multani", "Multani", ""),
    (b"musc", "MusicalSymbols", "Musical Symbols", ""),
    (b"mymr", "Myanmar", "Myanmar", ""),
    (b"mym2", "MyanmarV2", "Myanmar", ""),
    (b"nbat", "Nabataean", "Nabataean", ""),
    (b"newa", "Newa", "Newa", ""),
    (b"talu", "NewTaiLue", "New Tai Lue", ""),
    (b"nko ", "NKo", "N’Ko", ""),
    (b"orya", "Odia", "Odia", ""),
    (b"ory2", "OdiaV2", "Odia", ""),
    (b"ogam", "Ogham", "Ogham", ""),
    (b"olck", "OlChiki", "Ol Chiki", ""),
    (b"ital", "OldItalic", "Old Italic", ""),
    (b"hung", "OldHungarian", "Old Hungarian", ""),
    (b"narb", "OldNorthArabian", "Old North Arabian", ""),
    (b"perm", "OldPermic", "Old Permic", ""),
    (b"xpeo", "OldPersianCuneiform", "Old Persian Cuneiform", ""),
    (b"sarb", "OldSouthArabian", "Old South Arabian", ""),
    (b"orkh", "OldTurkic", "Old Turkic, Orkhon Runic", ""),
    (b"osge", "Osage", "Osage", ""),
    (b"osma", "Osmanya", "Osmanya", ""),
    (b"hmng", "PahawhHmong", "Pahawh Hmong", ""),
    (b"palm", "Palmyrene", "Palmyrene", ""),
    (b"pauc", "PauCinHau", "Pau Cin Hau", ""),
    (b"phag", "Phagspa", "Phags-pa", ""),
    (b"phnx", "Phoenician", "Phoenician", ""),
    (b"phlp", "PsalterPahlavi", "Psalter Pahlavi", ""),
    (b"rjng", "Rejang", "Rejang", ""),
    (b"runr", "Runic", "Runic", ""),
    (b"samr", "Samaritan", "Samaritan", ""),
    (b"saur", "Saurashtra", "Saurashtra", ""),
    (b"shrd", "Sharada", "Sharada", ""),
    (b"shaw", "Shavian", "Shavian", ""),
    (b"sidd", "Siddham", "Siddham", ""),
    (b"sgnw", "SignWriting", "Sign Writing", ""),
    (b"sinh", "Sinhala", "Sinhala", ""),
    (b"sora", "SoraSompeng", "Sora Sompeng", ""),
    (b"xsux", "SumeroAkkadianCuneiform", "Sumero-Akkadian Cuneiform", ""),
    (b"sund", "Sundanese", "Sundanese", ""),
    (b"sylo", "SylotiNagri", "Syloti Nagri", ""),
    (b"syrc", "Syriac", "Syriac", ""),
    (b"tglg", "Tagalog", "Tagalog", ""),
    (b"tagb", "Tagbanwa", "Tagbanwa", ""),
    (b"tale", "TaiLe", "Tai Le", ""),
    (b"lana", "TaiTham", "Tai Tham (Lanna)", ""),
    (b"tavt", "TaiViet", "Tai Viet", ""),
    (b"takr", "Takri", "Takri", ""),
    (b"taml", "Tamil", "Tamil", ""),
    (b"tml2", "TamilV2", "Tamil", ""),
    (b"tang", "Tangut", "Tangut", ""),
    (b"telu", "Telugu", "Telugu", ""),
    (b"tel2", "TeluguV2", "Telugu", ""),
    (b"thaa", "Thaana", "Thaana", ""),
    (b"thai", "Thai", "Thai", ""),
    (b"tibt", "Tibetan", "Tibetan", ""),
    (b"tfng", "Tifinagh", "Tifinagh", ""),
    (b"tirh", "Tirhuta", "Tirhuta", ""),
    (b"ugar", "UgariticCuneiform", "Ugaritic Cuneiform", ""),
    (b"vai ", "Vai", "Vai", ""),
    (b"wara", "WarangCiti", "Warang Citi", ""),
    (b"yi  ", "Yi", "Yi", ""),
];

pub const FEATURES: &[(&[u8; 4], &str, &str, &str)] = &[
    (b"aalt", "AccessAllAlternates", "Access All Alternates", ""),
    (b"abvf", "AboveBaseForms", "Above-base Forms", ""),
    (b"abvm", "AboveBaseMarkPositioning", "Above-base Mark Positioning", ""),
    (b"abvs", "AboveBaseSubstitutions", "Above-base Substitutions", ""),
    (b"afrc", "AlternativeFractions", "Alternative Fractions", ""),
    (b"akhn", "Akhand", "Akhand", ""),
    (b"blwf", "BelowBaseForms", "Below-base Forms", ""),
    (b"blwm", "BelowBaseMarkPositioning", "Below-base Mark Positioning", ""),
    (b"blws", "BelowBaseSubstitutions", "Below-base Substitutions", ""),
    (b"calt", "ContextualAlternates", "Contextual Alternates", ""),
    (b"case", "CaseSensitiveForms", "Case-sensitive Forms", ""),
    (b"ccmp", "GlyphCompositionDecomposition", "Glyph Composition and Decomposition", ""),
    (b"cfar", "ConjunctFormAfterRo", "Conjunct Form After Ro", ""),
    (b"chws", "ContextualHalfWidthSpacing", "Contextual Half-width Spacing", ""),
    (b"cjct", "ConjunctForms", "Conjunct Forms", ""),
    (b"clig", "ContextualLigatures", "Contextual Ligatures", ""),
    (b"cpct", "CenteredCJKPunctuation", "Centered CJK Punctuation", ""),
    (b"cpsp", "CapitalSpacing", "Capital Spacing", ""),
    (b"cswh", "ContextualSwash", "Contextual Swash", ""),
    (b"curs", "CursivePositioning", "Cursive Positioning", ""),
    (b"cv01", "CharacterVariants1", "Character Variants 1", ""),
    (b"cv02", "CharacterVariants2", "Character Variants 2", ""),
    (b"cv03", "CharacterVariants3", "Character Variants 3", ""),
    (b"cv04", "CharacterVariants4", "Character Variants 4", ""),
    (b"cv05", "CharacterVariants5", "Character Variants 5", ""),
    (b"cv06", "CharacterVariants6", "Character Variants 6", ""),
    (b"cv07", "CharacterVariants7", "Character Variants 7", ""),
    (b"cv08", "CharacterVariants8", "Character Variants 8", ""),
    (b"cv09", "CharacterVariants9", "Character Variants 9", ""),
    (b"cv10", "CharacterVariants10", "Character Variants 10", ""),
    (b"cv11", "CharacterVariants11", "Character Variants 11", ""),
    (b"cv12", "CharacterVariants12", "Character Variants 12", ""),
    (b"cv13", "CharacterVariants13", "Character Variants 13", ""),
    (b"cv14", "CharacterVariants14", "Character Variants 14", ""),
    (b"cv15", "CharacterVariants15", "Character Variants 15", ""),
    (b"cv16", "CharacterVariants16", "Character Variants 16", ""),
    (b"cv17", "CharacterVariants17", "Character Variants 17", ""),
    (b"cv18", "CharacterVariants18", "Character Variants 18", ""),
    (b"cv19", "CharacterVariants19", "Character Variants 19", ""),
    (b"cv20", "CharacterVariants20", "Character Variants 20", ""),
    (b"cv21", "CharacterVariants21", "Character Variants 21", ""),
    (b"cv22", "CharacterVariants22", "Character Variants 22", ""),
    (b"cv23", "CharacterVariants23", "Character Variants 23", ""),
    (b"cv24", "CharacterVariants24", "Character Variants 24", ""),
    (b"cv25", "CharacterVariants25", "Character Variants 25", ""),
    (b"cv26", "CharacterVariants26", "Character Variants 26", ""),
    (b"cv27", "CharacterVariants27", "Character Variants 27", ""),
    (b"cv28", "CharacterVariants28", "Character Variants 28", ""),
    (b"cv29", "CharacterVariants29", "Character Variants 29", ""),
    (b"cv30", "CharacterVariants30", "Character Variants 30", ""),
    (b"cv31", "CharacterVariants31", "Character Variants 31", ""),
    (b"cv32", "CharacterVariants32", "Character Variants 32", ""),
    (b"cv33", "CharacterVariants33", "Character Variants 33", ""),
    (b"cv34", "CharacterVariants34", "Character Variants 34", ""),
    (b"cv35", "CharacterVariants35", "Character Variants 35", ""),
    (b"cv36", "CharacterVariants36", "Character Variants 36", ""),
    (b"cv37", "CharacterVariants37", "Character Variants 37", ""),
    (b"cv38", "CharacterVariants38", "Character Variants 38", ""),
    (b"cv39", "CharacterVariants39", "Character Variants 39", ""),
    (b"cv40", "CharacterVariants40", "Character Variants 40", ""),
    (b"cv41", "CharacterVariants41", "Character Variants 41", ""),
    (b"cv42", "CharacterVariants42", "Character Variants 42", ""),
    (b"cv43", "CharacterVariants43", "Character Variants 43", ""),
    (b"cv44", "CharacterVariants44", "Character Variants 44", ""),
    (b"cv45", "CharacterVariants45", "Character Variants 45", ""),
    (b"cv46", "CharacterVariants46", "Character Variants 46", ""),
    (b"cv47", "CharacterVariants47", "Character Variants 47", ""),
    (b"cv48", "CharacterVariants48", "Character Variants 48", ""),
    (b"cv49", "CharacterVariants49", "Character Variants 49", ""),
    (b"cv50", "CharacterVariants50", "Character Variants 50", ""),
    (b"cv51", "CharacterVariants51", "Character Variants 51", ""),
    (b"cv52", "CharacterVariants52", "Character Variants 52", ""),
    (b"cv53", "CharacterVariants53", "Character Variants 53", ""),
    (b"cv54", "CharacterVariants54", "Character Variants 54", ""),
    (b"cv55", "CharacterVariants55", "Character Variants 55", ""),
    (b"cv56", "CharacterVariants56", "Character Variants 56", ""),
    (b"cv57", "CharacterVariants57", "Character Variants 57", ""),
    (b"cv58", "CharacterVariants58", "Character Variants 58", ""),
    (b"cv59", "CharacterVariants59", "Character Variants 59", ""),
    (b"cv60", "CharacterVariants60", "Character Variants 60", ""),
    (b"cv61", "CharacterVariants61", "Character Variants 61", ""),
    (b"cv62", "CharacterVariants62", "Character Variants 62", ""),
    (b"cv63", "CharacterVariants63", "Character Variants 63", ""),
    (b"cv64", "CharacterVariants64", "Character Variants 64", ""),
    (b"cv65", "CharacterVariants65", "Character Variants 65", ""),
    (b"cv66", "CharacterVariants66", "Character Variants 66", ""),
    (b"cv67", "CharacterVariants67", "Character Variants 67", ""),
    (b"cv68", "CharacterVariants68", "Character Variants 68", ""),
    (b"cv69", "CharacterVariants69", "Character Variants 69", ""),
    (b"cv70", "CharacterVariants70", "Character Variants 70", ""),
    (b"cv71", "CharacterVariants71", "Character Variants 71", ""),
    (b"cv72", "CharacterVariants72", "Character Variants 72", ""),
    (b"cv73", "CharacterVariants73", "Character Variants 73", ""),
    (b"cv74", "CharacterVariants74", "Character Variants 74", ""),
    (b"cv75", "CharacterVariants75", "Character Variants 75", ""),
    (b"cv76", "CharacterVariants76", "Character Variants 76", ""),
    (b"cv77", "CharacterVariants77", "Character Variants 77", ""),
    (b"cv78", "CharacterVariants78", "Character Variants 78", ""),
    (b"cv79", "CharacterVariants79", "Character Variants 79", ""),
    (b"cv80", "CharacterVariants80", "Character Variants 80", ""),
    (b"cv81", "CharacterVariants81", "Character Variants 81", ""),
    (b"cv82", "CharacterVariants82", "Character Variants 82", ""),
    (b"cv83", "CharacterVariants83", "Character Variants 83", ""),
    (b"cv84", "CharacterVariants84", "Character Variants 84", ""),
    (b"cv85", "CharacterVariants85", "Character Variants 85", ""),
    (b"cv86", "CharacterVariants86", "Character Variants 86", ""),
    (b"cv87", "CharacterVariants87", "Character Variants 87", ""),
    (b"cv88", "CharacterVariants88", "Character Variants 88", ""),
    (b"cv89", "CharacterVariants89", "Character Variants 89", ""),
    (b"cv90", "CharacterVariants90", "Character Variants 90", ""),
    (b"cv91", "CharacterVariants91", "Character Variants 91", ""),
    (b"cv92", "CharacterVariants92", "Character Variants 92", ""),
    (b"cv93", "CharacterVariants93", "Character Variants 93", ""),
    (b"cv94", "CharacterVariants94", "Character Variants 94", ""),
    (b"cv95", "CharacterVariants95", "Character Variants 95", ""),
    (b"cv96", "CharacterVariants96", "Character Variants 96", ""),
    (b"cv97", "CharacterVariants97", "Character Variants 97", ""),
    (b"cv98", "CharacterVariants98", "Character Variants 98", ""),
    (b"cv99", "CharacterVariants99", "Character Variants 99", ""),
    (b"c2pc", "PetiteCapitalsFromCapitals", "Petite Capitals from Capitals", ""),
    (b"c2sc", "SmallCapitalsFromCapitals", "Small Capitals from Capitals", ""),
    (b"dist", "Distances", "Distances", ""),
    (b"dlig", "DiscretionaryLigatures", "Discretionary Ligatures", ""),
    (b"dnom", "Denominators", "Denominators", ""),
    (b"dtls", "DotlessForms", "Dotless Forms", ""),
    (b"expt", "ExpertForms", "Expert Forms", ""),
    (b"falt", "FinalGlyphonLineAlternates", "Final Glyph on Line Alternates", ""),
    (b"fin2", "TerminalForms2", "Terminal Forms 2", ""),
    (b"fin3", "TerminalForms3", "Terminal Forms 3", ""),
    (b"fina", "TerminalForms1", "Terminal Forms 1", ""),
    (b"flac", "FlattenedAccentForms", "Flattened Accent Forms", ""),
    (b"frac", "Fractions", "Fractions", ""),
    (b"fwid", "FullWidths", "Full Widths", ""),
    (b"half", "HalfForms", "Half Forms", ""),
    (b"haln", "HalantForms", "Halant Forms", ""),
    (b"halt", "AlternateHalfWidths", "Alternate Half Widths", ""),
    (b"hist", "HistoricalForms", "Historical Forms", ""),
    (b"hkna", "HorizontalKanaAlternates", "Horizontal Kana Alternates", ""),
    (b"hlig", "HistoricalLigatures", "Historical Ligatures", ""),
    (b"hngl", "Hangul", "Hangul", ""),
    (b"hojo", "HojoKanjiForms", "Hojo Kanji Forms", ""),
    (b"hwid", "HalfWidths", "Half Widths", ""),
    (b"init", "InitialForms", "Initial Forms", ""),
    (b"isol", "IsolatedForms", "Isolated Forms", ""),
    (b"ital", "Italics", "Italics", ""),
    (b"jalt", "JustificationAlternates", "Justification Alternates", ""),
    (b"jp78", "JIS78Forms", "JIS78 Forms", ""),
    (b"jp83", "JIS83Forms", "JIS83 Forms", ""),
    (b"jp90", "JIS90Forms", "JIS90 Forms", ""),
    (b"jp04", "JIS2004Forms", "JIS2004 Forms", ""),
    (b"kern", "Kerning", "Kerning", ""),
    (b"lfbd", "LeftBounds", "Left Bounds", ""),
    (b"liga", "StandardLigatures", "Standard Ligatures", ""),
    (b"ljmo", "LeadingJamoForms", "Leading Jamo Forms", ""),
    (b"lnum", "LiningFigures", "Lining Figures", ""),
    (b"locl", "LocalizedForms", "Localized Forms", ""),
    (b"ltra", "LeftToRightAlternates", "Left-to-right Alternates", ""),
    (b"ltrm", "LeftToRightMirroredForms", "Left-to-right Mirrored Forms", ""),
    (b"mark", "MarkPositioning", "Mark Positioning", ""),
    (b"med2", "MedialForms2", "Medial Forms 2", ""),
    (b"medi", "MedialForms1", "Medial Forms 1", ""),
    (b"mgrk", "MathematicalGreek", "Mathematical Greek", ""),
    (b"mkmk", "MarkToMarkPositioning", "Mark-to-mark Positioning", ""),
    (b"mset", "MarkPositioningViaSubstitution", "Mark Positioning via Substitution", ""),
    (b"nalt", "AlternateAnnotationForms", "Alternate Annotation Forms", ""),
    (b"nlck", "NLCKanjiForms", "NLC Kanji Forms", ""),
    (b"nukt", "NuktaForms", "Nukta Forms", ""),
    (b"numr", "Numerators", "Numerators", ""),
    (b"onum", "OldstyleFigures", "Oldstyle Figures", ""),
    (b"opbd", "OpticalBounds", "Optical Bounds", ""),
    (b"ordn", "Ordinals", "Ordinals", ""),
    (b"ornm", "Ornaments", "Ornaments", ""),
    (b"palt", "ProportionalAlternateWidths", "Proportional Alternate Widths", ""),
    (b"pcap", "PetiteCapitals", "Petite Capitals", ""),
    (b"pkna", "ProportionalKana", "Proportional Kana", ""),
    (b"pnum", "ProportionalFigures", "Proportional Figures", ""),
    (b"pref", "PreBaseForms", "Pre-base Forms", ""),
    (b"pres", "PreBaseSubstitutions", "Pre-base Substitutions", ""),
    (b"pstf", "PostBaseForms", "Post-base Forms", ""),
    (b"psts", "PostBaseSubstitutions", "Post-base Substitutions", ""),
    (b"pwid", "ProportionalWidths", "Proportional Widths", ""),
    (b"qwid", "QuarterWidths", "Quarter Widths", ""),
    (b"rand", "Randomize", "Randomize", ""),
    (b"rclt", "RequiredContextualAlternates", "Required Contextual Alternates", ""),
    (b"rkrf", "RakarForms", "Rakar Forms", ""),
    (b"rlig", "RequiredLigatures", "Required Ligatures", ""),
    (b"rphf", "RephForms", "Reph Forms", ""),
    (b"rtbd", "RightBounds", "Right Bounds", ""),
    (b"rtla", "RightToLeftAlternates", "Right-to-left Alternates", ""),
    (b"rtlm", "RightToLeftMirroredForms", "Right-to-left Mirrored Forms", ""),
    (b"ruby", "RubyNotationForms", "Ruby Notation Forms", ""),
    (b"rvrn", "RequiredVariationAlternates", "Required Variation Alternates", ""),
    (b"salt", "StylisticAlternates", "Stylistic Alternates", ""),
    (b"sinf", "ScientificInferiors", "Scientific Inferiors", ""),
    (b"size", "OpticalSize", "Optical Size", ""),
    (b"smcp", "SmallCapitals", "Small Capitals", ""),
    (b"smpl", "SimplifiedForms", "Simplified Forms", ""),
    (b"ss01", "StylisticSet1", "Stylistic Set 1", ""),
    (b"ss02", "StylisticSet2", "Stylistic Set 2", ""),
    (b"ss03", "StylisticSet3", "Stylistic Set 3", ""),
    (b"ss04", "StylisticSet4", "Stylistic Set 4", ""),
    (b"ss05", "StylisticSet5", "Stylistic Set 5", ""),
    (b"ss06", "StylisticSet6", "Stylistic Set 6", ""),
    (b"ss07", "StylisticSet7", "Stylistic Set 7", ""),
    (b"ss08", "StylisticSet8", "Stylistic Set 8", ""),
    (b"ss09", "StylisticSet9", "Stylistic Set 9", ""),
    (b"ss10", "StylisticSet10", "Stylistic Set 10", ""),
    (b"ss11", "StylisticSet11", "Stylistic Set 11", ""),
    (b"ss12", "StylisticSet12", "Stylistic Set 12", ""),
    (b"ss13", "StylisticSet13", "Stylistic Set 13", ""),
    (b"ss14", "StylisticSet14", "Stylistic Set 14", ""),
    (b"ss15", "StylisticSet15", "Stylistic Set 15", ""),
    (b"ss16", "StylisticSet16", "Stylistic Set 16", ""),
    (b"ss17", "StylisticSet17", "Stylistic Set 17", ""),
    (b"ss18", "StylisticSet18", "Stylistic Set 18", ""),
    (b"ss19", "StylisticSet19", "Stylistic Set 19", ""),
    (b"ss20", "StylisticSet20", "Stylistic Set 20", ""),
    (b"ssty", "MathScriptStyleAlternates", "Math Script Style Alternates", ""),
    (b"stch", "StretchingGlyphDecomposition", "Stretching Glyph Decomposition", ""),
    (b"subs", "Subscript", "Subscript", ""),
    (b"sups", "Superscript", "Superscript", ""),
    (b"swsh", "Swash", "Swash", ""),
    (b"titl", "Titling", "Titling", ""),
    (b"tjmo", "TrailingJamoForms", "Trailing Jamo Forms", ""),
    (b"tnam", "TraditionalNameForms", "Traditional Name Forms", ""),
    (b"tnum", "TabularFigures", "Tabular Figures", ""),
    (b"trad", "TraditionalForms", "Traditional Forms", ""),
    (b"twid", "ThirdWidths", "Third Widths", ""),
    (b"unic", "Unicase", "Unicase", ""),
    (b"valt", "AlternateVerticalMetrics", "Alternate Vertical Metrics", ""),
    (b"vatu", "VattuVariants", "Vattu Variants", ""),
    (b"vchw", "VerticalContextualHalfWidthSpacing", "Vertical Contextual Half-width Spacing", ""),
    (b"vert", "VerticalWriting", "Vertical Writing", ""),
    (b"vhal", "AlternateVerticalHalfMetrics", "Alternate Vertical Half Metrics", ""),
    (b"vjmo", "VowelJamoForms", "Vowel Jamo Forms", ""),
    (b"vkna", "VerticalKanaAlternates", "Vertical Kana Alternates", ""),
    (b"vkrn", "VerticalKerning", "Vertical Kerning", ""),
    (b"vpal", "ProportionalAlternateVerticalMetrics", "Proportional Alternate Vertical Metrics", ""),
    (b"vrt2", "VerticalAlternatesAndRotation", "Vertical Alternates and Rotation", ""),
    (b"vrtr", "VerticalAlternatesForRotation", "Vertical Alternates for Rotation", ""),
    (b"zero", "SlashedZero", "Slashed Zero", ""),
];

pub const LANGUAGES: &[(&[u8; 4], &str, &str, &str)] = &[
    (b"ABA ", "Abaza", "Abaza", "abq"),
    (b"ABK ", "Abkhazian", "Abkhazian", "abk"),
    (b"ACH ", "Acholi", "Acholi", "ach"),
    (b"ACR ", "Achi", "Achi", "acr"),
    (b"ADY ", "Adyghe", "Adyghe", "ady"),
    (b"AFK ", "Afrikaans", "Afrikaans", "afr"),
    (b"AFR ", "Afar", "Afar", "aar"),
    (b"AGW ", "Agaw", "Agaw", "ahg"),
    (b"AIO ", "Aiton", "Aiton", "aio"),
    (b"AKA ", "Akan", "Akan", "aka"),
    (b"ALS ", "Alsatian", "Alsatian", "gsw"),
    (b"ALT ", "Altai", "Altai", "atv, alt"),
    (b"AMH ", "Amharic", "Amharic", "amh"),
    (b"ANG ", "AngloSaxon", "Anglo-Saxon", "ang"),
    (b"APPH", "AmericanistPhoneticNotation", "Phonetic Transcription, Americanist", ""),
    (b"ARA ", "Arabic", "Arabic", "ara"),
    (b"ARG ", "Aragonese", "Aragonese", "arg"),
    (b"ARI ", "Aari", "Aari", "aiw"),
    (b"ARK ", "Rakhine", "Rakhine", "mhv, rmz, rki"),
    (b"ASM ", "Assamese", "Assamese", "asm"),
    (b"AST ", "Asturian", "Asturian", "ast"),
    (b"ATH ", "Athapaskan", "Athapaskan", "apk, apj, apl, apm, apw, nav, bea, sek, bcr, caf, \
                                              crx, clc, gwi, haa, chp, dgr, scs, xsl, srs, ing, \
                                              hoi, koy, hup, ktw, mvb, wlk, coq, ctc, gce, tol, \
                                              tuu, kkz, tgx, tht, aht, tfn, taa, tau, tcb, kuu, \
                                              tce, ttm, txc"),
    (b"AVR ", "Avar", "Avar", "ava"),
    (b"AWA ", "Awadhi", "Awadhi", "awa"),
    (b"AYM ", "Aymara", "Aymara", "aym"),
    (b"AZB ", "Torki", "Torki", "azb"),
    (b"AZE ", "Azerbaijani", "Azerbaijani", "aze"),
    (b"BAD ", "Badaga", "Badaga", "bfq"),
    (b"BAD0", "Banda", "Banda", "bad"),
    (b"BAG ", "Baghelkhandi", "Baghelkhandi", "bfy"),
    (b"BAL ", "Balkar", "Balkar", "krc"),
    (b"BAN ", "Balinese", "Balinese", "ban"),
    (b"BAR ", "Bavarian", "Bavarian", "bar"),
    (b"BAU ", "Baule", "Baulé", "bci"),
    (b"BBC ", "BatakToba", "Batak Toba", "bbc"),
    (b"BBR ", "Berber", "Berber", ""),
    (b"BCH ", "Bench", "Bench", "bcq"),
    (b"BCR ", "BibleCree", "Bible Cree", ""),
    (b"BDY ", "Bandjalang", "Bandjalang", "bdy"),
    (b"BEL ", "Belarussian", "Belarussian", "bel"),
    (b"BEM ", "Bemba", "Bemba", "bem"),
    (b"BEN ", "Bengali", "Bengali", "ben"),
    (b"BGC ", "Haryanvi", "Haryanvi", "bgc"),
    (b"BGQ ", "Bagri", "Bagri", "bgq"),
    (b"BGR ", "Bulgarian", "Bulgarian", "bul"),
    (b"BHI ", "Bhili", "Bhili", "bhi, bhb"),
    (b"BHO ", "Bhojpuri", "Bhojpuri", "bho"),
    (b"BIK ", "Bikol", "Bikol", "bik, bhk, bcl, bto, cts, bln"),
    (b"BIL ", "Bilen", "Bilen", "byn"),
    (b"BIS ", "Bislama", "Bislama", "bis"),
    (b"BJJ ", "Kanauji", "Kanauji", "bjj"),
    (b"BKF ", "Blackfoot", "Blackfoot", "bla"),
    (b"BLI ", "Baluchi", "Baluchi", "bal"),
    (b"BLK ", "PaoKaren", "Pa’o Karen", "blk"),
    (b"BLN ", "Balante", "Balante", "bjt, ble"),
    (b"BLT ", "Balti", "Balti", "bft"),
    (b"BMB ", "Bambara", "Bambara (Bamanankan)", "bam"),
    (b"BML ", "Bamileke", "Bamileke", ""),
    (b"BOS ", "Bosnian", "Bosnian", "bos"),
    (b"BPY ", "BishnupriyaManipuri", "Bishnupriya Manipuri", "bpy"),
    (b"BRE ", "Breton", "Breton", "bre"),
    (b"BRH ", "Brahui", "Brahui", "brh"),
    (b"BRI ", "BrajBhasha", "Braj Bhasha", "bra"),
    (b"BRM ", "Burmese", "Burmese", "mya"),
    (b"BRX ", "Bodo", "Bodo", "brx"),
    (b"BSH ", "Bashkir", "Bashkir", "bak"),
    (b"BSK ", "Burushaski", "Burushaski", "bsk"),
    (b"BTI ", "Beti", "Beti", "btb"),
    (b"BTS ", "BatakSimalungun", "Batak Simalungun", "bts"),
    (b"BUG ", "Bugis", "Bugis", "bug"),
    (b"BYV ", "Medumba", "Medumba", "byv"),
    (b"CAK ", "Kaqchikel", "Kaqchikel", "cak"),
    (b"CAT ", "Catalan", "Catalan", "cat"),
    (b"CBK ", "ZamboangaChavacano", "Zamboanga Chavacano", "cbk"),
    (b"CEB ", "Cebuano", "Cebuano", "ceb"),
    (b"CHE ", "Chechen", "Chechen", "che"),
    (b"CHG ", "ChahaGurage", "Chaha Gurage", "sgw"),
    (b"CHH ", "Chattisgarhi", "Chattisgarhi", "hne"),
    (b"CHI ", "Chichewa", "Chichewa (Chewa, Nyanja)", "nya"),
    (b"CHK ", "Chukchi", "Chukchi", "ckt"),
    (b"CHK0", "Chuukese", "Chuukese", "chk"),
    (b"CHO ", "Choctaw", "Choctaw", "cho"),
    (b"CHP ", "Chipewyan", "Chipewyan", "chp"),
    (b"CHR ", "Cherokee", "Cherokee", "chr"),
    (b"CHA ", "Chamorro", "Chamorro", "cha"),
    (b"CHU ", "Chuvash", "Chuvash", "chv"),
    (b"CHY ", "Cheyenne", "Cheyenne", "chy"),
    (b"CGG ", "Chiga", "Chiga", "cgg"),
    (b"CMR ", "Comorian", "Comorian", "swb, wlc, wni, zdj"),
    (b"COP ", "Coptic", "Coptic", "cop"),
    (b"COR ", "Cornish", "Cornish", "cor"),
    (b"COS ", "Corsican", "Corsican", "cos"),
    (b"CPP ", "Creoles", "Creoles", "cpp"),
    (b"CRE ", "Cree", "Cree", "cre"),
    (b"CRR ", "Carrier", "Carrier", "crx, caf"),
    (b"CRT ", "CrimeanTatar", "Crimean Tatar", "crh"),
    (b"CSB ", "Kashubian", "Kashubian", "csb"),
    (b"CSL ", "ChurchSlavonic", "Church Slavonic", "chu"),
    (b"CSY ", "Czech", "Czech", "ces"),
    (b"CTG ", "Chittagonian", "Chittagonian", "ctg"),
    (b"CUK ", "SanBlasKuna", "San Blas Kuna", "cuk"),
    (b"DAN ", "Danish", "Danish", "dan"),
    (b"DAR ", "Dargwa", "Dargwa", "dar"),
    (b"DAX ", "Dayi", "Dayi", "dax"),
    (b"DCR ", "WoodsCree", "Woods Cree", "cwd"),
    #[cfg(feature = "default-language")]
    (b"DFLT", "Default", "Default", ""),
    (b"DEU ", "German", "German", "deu"),
    (b"DGO ", "Dogri", "Dogri", "dgo"),
    (b"DGR ", "DogriMacrolanguage", "Dogri", "doi"),
    (b"DHG ", "Dhangu", "Dhangu", "dhg"),
    (b"DHV ", "DivehiDeprecated", "Divehi (Dhivehi, Maldivian)", "div"),
    (b"DIQ ", "Dimli", "Dimli", "diq"),
    (b"DIV ", "Divehi", "Divehi (Dhivehi, Maldivian)", "div"),
    (b"DJR ", "Zarma", "Zarma", "dje"),
    (b"DJR0", "Djambarrpuyngu", "Djambarrpuyngu", "djr"),
    (b"DNG ", "Dangme", "Dangme", "ada"),
    (b"DNJ ", "Dan", "Dan", "dnj"),
    (b"DNK ", "Dinka", "Dinka", "din"),
    (b"DRI ", "Dari", "Dari", "prs"),
    (b"DUJ ", "Dhuwal", "Dhuwal", "duj"),
    (b"DUN ", "Dungan", "Dungan", "dng"),
    (b"DZN ", "Dzongkha", "Dzongkha", "dzo"),
    (b"EBI ", "Ebira", "Ebira", "igb"),
    (b"ECR ", "EasternCree", "Eastern Cree", "crj, crl"),
    (b"EDO ", "Edo", "Edo", "bin"),
    (b"EFI ", "Efik", "Efik", "efi"),
    (b"ELL ", "Greek", "Greek", "ell"),
    (b"EMK ", "EasternManinkakan", "Eastern Maninkakan", "emk"),
    (b"ENG ", "English", "English", "eng"),
    (b"ERZ ", "Erzya", "Erzya", "myv"),
    (b"ESP ", "Spanish", "Spanish", "spa"),
    (b"ESU ", "CentralYupik", "Central Yupik", "esu"),
    (b"ETI ", "Estonian", "Estonian", "est"),
    (b"EUQ ", "Basque", "Basque", "eus"),
    (b"EVK ", "Evenki", "Evenki", "evn"),
    (b"EVN ", "Even", "Even", "eve"),
    (b"EWE ", "Ewe", "Ewe", "ewe"),
    (b"FAN ", "FrenchAntillean", "French Antillean", "acf"),
    (b"FAN0", "Fang", "Fang", "fan"),
    (b"FAR ", "Persian", "Persian", "fas"),
    (b"FAT ", "Fanti", "Fanti", "fat"),
    (b"FIN ", "Finnish", "Finnish", "fin"),
    (b"FJI ", "Fijian", "Fijian", "fij"),
    (b"FLE ", "DutchFlemish", "Dutch (Flemish)", "vls"),
    (b"FMP ", "Fefe", "Fe’fe’", "fmp"),
    (b"FNE ", "ForestNenets", "Forest Nenets", "enf"),
    (b"FON ", "Fon", "Fon", "fon"),
    (b"FOS ", "Faroese", "Faroese", "fao"),
    (b"FRA ", "French", "French", "fra"),
    (b"FRC ", "CajunFrench", "Cajun French", "frc"),
    (b"FRI ", "Frisian", "Frisian", "fry"),
    (b"FRL ", "Friulian", "Friulian", "fur"),
    (b"FRP ", "Arpitan", "Arpitan", "frp"),
    (b"FTA ", "Futa", "Futa", "fuf"),
    (b"FUL ", "Fulah", "Fulah", "ful"),
    (b"FUV ", "NigerianFulfulde", "Nigerian Fulfulde", "fuv"),
    (b"GAD ", "Ga", "Ga", "gaa"),
    (b"GAE ", "ScottishGaelic", "Scottish Gaelic (Gaelic)", "gla"),
    (b"GAG ", "Gagauz", "Gagauz", "gag"),
    (b"GAL ", "Galician", "Galician", "glg"),
    (b"GAR ", "Garshuni", "Garshuni", ""),
    (b"GAW ", "Garhwali", "Garhwali", "gbm"),
    (b"GEZ ", "Geez", "Ge’ez", "gez"),
    (b"GIH ", "Githabul", "Githabul", "gih"),
    (b"GIL ", "Gilyak", "Gilyak", "niv"),
    (b"GIL0", "Kiribati", "Kiribati (Gilbertese)", "gil"),
    (b"GKP ", "KpelleGuinea", "Kpelle (Guinea)", "gkp"),
    (b"GLK ", "Gilaki", "Gilaki", "glk"),
    (b"GMZ ", "Gumuz", "Gumuz", "guk"),
    (b"GNN ", "Gumatj", "Gumatj", "gnn"),
    (b"GOG ", "Gogo", "Gogo", "gog"),
    (b"GON ", "Gondi", "Gondi", "gon"),
    (b"GRN ", "Greenlandic", "Greenlandic", "kal"),
    (b"GRO ", "Garo", "Garo", "grt"),
    (b"GUA ", "Guarani", "Guarani", "grn"),
    (b"GUC ", "Wayuu", "Wayuu", "guc"),
    (b"GUF ", "Gupapuyngu", "Gupapuyngu", "guf"),
    (b"GUJ ", "Gujarati", "Gujarati", "guj"),
    (b"GUZ ", "Gusii", "Gusii", "guz"),
    (b"HAI ", "Haitian", "Haitian (Haitian Creole)", "hat"),
    (b"HAL ", "Halam", "Halam", "flm"),
    (b"HAR ", "Harauti", "Harauti", "hoj"),
    (b"HAU ", "Hausa", "Hausa", "hau"),
    (b"HAW ", "Hawaiian", "Hawaiian", "haw"),
    (b"HAY ", "Haya", "Haya", "hay"),
    (b"HAZ ", "Hazaragi", "Hazaragi", "haz"),
    (b"HBN ", "HammerBanna", "Hammer-Banna", "amf"),
    (b"HER ", "Herero", "Herero", "her"),
    (b"HIL ", "Hiligaynon", "Hiligaynon", "hil"),
    (b"HIN ", "Hindi", "Hindi", "hin"),
    (b"HMA ", "HighMari", "High Mari", "mrj"),
    (b"HMN ", "Hmong", "Hmong", "hmn"),
    (b"HMO ", "HiriMotu", "Hiri Motu", "hmo"),
    (b"HND ", "Hindko", "Hindko", "hno, hnd"),
    (b"HO  ", "Ho", "Ho", "hoc"),
    (b"HRI ", "Harari", "Harari", "har"),
    (b"HRV ", "Croatian", "Croatian", "hrv"),
    (b"HUN ", "Hungarian", "Hungarian", "hun"),
    (b"HYE ", "Armenian", "Armenian", "hye"),
    (b"HYE0", "ArmenianEast", "Armenian East", "hye"),
    (b"IBA ", "Iban", "Iban", "iba"),
    (b"IBB ", "Ibibio", "Ibibio", "ibb"),
    (b"IBO ", "Igbo", "Igbo", "ibo"),
    (b"IJO ", "Ijolanguages", "Ijo languages", "ijc"),
    (b"IDO ", "Ido", "Ido", "ido"),
    (b"ILE ", "Interlingue", "Interlingue", "ile"),
    (b"ILO ", "Ilokano", "Ilokano", "ilo"),
    (b"INA ", "Interlingua", "Interlingua", "ina"),
    (b"IND ", "Indonesian", "Indonesian", "ind"),
    (b"ING ", "Ingush", "Ingush", "inh"),
    (b"INU ", "Inuktitut", "Inuktitut", "iku"),
    (b"IPK ", "Inupiat", "Inupiat", "ipk"),
    (b"IPPH", "InternationalPhoneticAlphabet", "Phonetic transcription, IPA", ""),
    (b"IRI ", "Irish", "Irish", "gle"),
    (b"IRT ", "IrishTraditional", "Irish Traditional", "gle"),
    (b"ISL ", "Icelandic", "Icelandic", "isl"),
    (b"ISM ", "InariSami", "Inari Sami", "smn"),
    (b"ITA ", "Italian", "Italian", "ita"),
    (b"IWR ", "Hebrew", "Hebrew", "heb"),
    (b"JAM ", "JamaicanCreole", "Jamaican Creole", "jam"),
    (b"JAN ", "Japanese", "Japanese", "jpn"),
    (b"JAV ", "Javanese", "Javanese", "jav"),
    (b"JBO ", "Lojban", "Lojban", "jbo"),
    (b"JCT ", "Krymchak", "Krymchak", "jct"),
    (b"JII ", "Yiddish", "Yiddish", "yid"),
    (b"JUD ", "Ladino", "Ladino", "lad"),
    (b"JUL ", "Jula", "Jula", "dyu"),
    (b"KAB ", "Kabardian", "Kabardian", "kbd"),
    (b"KAB0", "Kabyle", "Kabyle", "kab"),
    (b"KAC ", "Kachchi", "Kachchi", "kfr"),
    (b"KAL ", "Kalenjin", "Kalenjin", "kln"),
    (b"KAN ", "Kannada", "Kannada", "kan"),
    (b"KAR ", "Karachay", "Karachay", "krc"),
    (b"KAT ", "Georgian", "Georgian", "kat"),
    (b"KAZ ", "Kazakh", "Kazakh", "kaz"),
    (b"KDE ", "Makonde", "Makonde", "kde"),
    (b"KEA ", "Kabuverdianu", "Kabuverdianu (Crioulo)", "kea"),
    (b"KEB ", "Kebena", "Kebena", "ktb"),
    (b"KEK ", "Kekchi", "Kekchi", "kek"),
    (b"KGE ", "KhutsuriGeorgian", "Khutsuri Georgian", "kat"),
    (b"KHA ", "Khakass", "Khakass", "kjh"),
    (b"KHK ", "KhantyKazim", "Khanty-Kazim", "kca"),
    (b"KHM ", "Khmer", "Khmer", "khm"),
    (b"KHS ", "KhantyShurishkar", "Khanty-Shurishkar", "kca"),
    (b"KHT ", "KhamtiShan", "Khamti Shan", "kht"),
    (b"KHV ", "KhantyVakhi", "Khanty-Vakhi", "kca"),
    (b"KHW ", "Khowar", "Khowar", "khw"),
    (b"KIK ", "Kikuyu", "Kikuyu (Gikuyu)", "kik"),
    (b"KIR ", "Kirghiz", "Kirghiz (Kyrgyz)", "kir"),
    (b"KIS ", "Kisii", "Kisii", "kqs, kss"),
    (b"KIU ", "Kirmanjki", "Kirmanjki", "kiu"),
    (b"KJD ", "SouthernKiwai", "Southern Kiwai", "kjd"),
    (b"KJP ", "EasternPwoKaren", "Eastern Pwo Karen", "kjp"),
    (b"KKN ", "Kokni", "Kokni", "kex"),
    (b"KLM ", "Kalmyk", "Kalmyk", "xal"),
    (b"KMB ", "Kamba", "Kamba", "kam"),
    (b"KMN ", "Kumaoni", "Kumaoni", "kfy"),
    (b"KMO ", "Komo", "Komo", "kmw"),
    (b"KMS ", "Komso", "Komso", "kxc"),
    (b"KMZ ", "KhorasaniTurkic", "Khorasani Turkic", "kmz"),
    (b"KNR ", "Kanuri", "Kanuri", "kau"),
    (b"KOD ", "Kodagu", "Kodagu", "kfa"),
    (b"KOH ", "KoreanOldHangul", "Korean Old Hangul", "okm"),
    (b"KOK ", "Konkani", "Konkani", "kok"),
    (b"KON ", "Kikongo", "Kikongo", "ktu"),
    (b"KOM ", "Komi", "Komi", "kom"),
    (b"KON0", "Kongo", "Kongo", "kon"),
    (b"KOP ", "KomiPermyak", "Komi-Permyak", "koi"),
    (b"KOR ", "Korean", "Korean", "kor"),
    (b"KOS ", "Kosraean", "Kosraean", "kos"),
    (b"KOZ ", "KomiZyrian", "Komi-Zyrian", "kpv"),
    (b"KPL ", "Kpelle", "Kpelle", "kpe"),
    (b"KRI ", "Krio", "Krio", "kri"),
    (b"KRK ", "Karakalpak", "Karakalpak", "kaa"),
    (b"KRL ", "Karelian", "Karelian", "krl"),
    (b"KRM ", "Karaim", "Karaim", "kdr"),
    (b"KRN ", "Karen", "Karen", "kar"),
    (b"KRT ", "Koorete", "Koorete", "kqy"),
    (b"KSH ", "Kashmiri", "Kashmiri", "kas"),
    (b"KSH0", "Ripuarian", "Ripuarian", "ksh"),
    (b"KSI ", "Khasi", "Khasi", "kha"),
    (b"KSM ", "KildinSami", "Kildin Sami", "sjd"),
    (b"KSW ", "SgawKaren", "S’gaw Karen", "ksw"),
    (b"KUA ", "Kuanyama", "Kuanyama", "kua"),
    (b"KUI ", "Kui", "Kui", "kxu"),
    (b"KUL ", "Kulvi", "Kulvi", "kfx"),
    (b"KUM ", "Kumyk", "Kumyk", "kum"),
    (b"KUR ", "Kurdish", "Kurdish", "kur"),
    (b"KUU ", "Kurukh", "Kurukh", "kru"),
    (b"KUY ", "Kuy", "Kuy", "kdt"),
    (b"KYK ", "Koryak", "Koryak", "kpy"),
    (b"KYU ", "WesternKayah", "Western Kayah", "kyu"),
    (b"LAD ", "Ladin", "Ladin", "lld"),
    (b"LAH ", "Lahuli", "Lahuli", "bfu"),
    (b"LAK ", "Lak", "Lak", "lbe"),
    (b"LAM ", "Lambani", "Lambani", "lmn"),
    (b"LAO ", "Lao", "Lao", "lao"),
    (b"LAT ", "Latin", "Latin", "lat"),
    (b"LAZ ", "Laz", "Laz", "lzz"),
    (b"LCR ", "LCree", "L-Cree", "crm"),
    (b"LDK ", "Ladakhi", "Ladakhi", "lbj"),
    (b"LEZ ", "Lezgi", "Lezgi", "lez"),
    (b"LIJ ", "Ligurian", "Ligurian", "lij"),
    (b"LIM ", "Limburgish", "Limburgish", "lim"),
    (b"LIN ", "Lingala", "Lingala", "lin"),
    (b"LIS ", "Lisu", "Lisu", "lis"),
    (b"LJP ", "Lampung", "Lampung", "ljp"),
    (b"LKI ", "Laki", "Laki", "lki"),
    (b"LMA ", "LowMari", "Low Mari", "mhr"),
    (b"LMB ", "Limbu", "Limbu", "lif"),
    (b"LMO ", "Lombard", "Lombard", "lmo"),
    (b"LMW ", "Lomwe", "Lomwe", "ngl"),
    (b"LOM ", "Loma", "Loma", "lom"),
    (b"LRC ", "Luri", "Luri", "lrc, luz, bqi, zum"),
    (b"LSB ", "LowerSorbian", "Lower Sorbian", "dsb"),
    (b"LSM ", "LuleSami", "Lule Sami", "smj"),
    (b"LTH ", "Lithuanian", "Lithuanian", "lit"),
    (b"LTZ ", "Luxembourgish", "Luxembourgish", "ltz"),
    (b"LUA ", "LubaLulua", "Luba-Lulua", "lua"),
    (b"LUB ", "LubaKatanga", "Luba-Katanga", "lub"),
    (b"LUG ", "Ganda", "Ganda", "lug"),
    (b"LUH ", "Luyia", "Luyia", "luy"),
    (b"LUO ", "Luo", "Luo", "luo"),
    (b"LVI ", "Latvian", "Latvian", "lav"),
    (b"MAD ", "Madura", "Madura", "mad"),
    (b"MAG ", "Magahi", "Magahi", "mag"),
    (b"MAH ", "Marshallese", "Marshallese", "mah"),
    (b"MAJ ", "Majang", "Majang", "mpe"),
    (b"MAK ", "Makhuwa", "Makhuwa", "vmw"),
    (b"MAL ", "Malayalam", "Malayalam", "mal"),
    (b"MAM ", "Mam", "Mam", "mam"),
    (b"MAN ", "Mansi", "Mansi", "mns"),
    (b"MAP ", "Mapudungun", "Mapudungun", "arn"),
    (b"MAR ", "Marathi", "Marathi", "mar"),
    (b"MAW ", "Marwari", "Marwari", "mwr, dhd, rwr, mve, wry, mtr, swv"),
    (b"MBN ", "Mbundu", "Mbundu", "kmb"),
    (b"MBO ", "Mbo", "Mbo", "mbo"),
    (b"MCH ", "Manchu", "Manchu", "mnc"),
    (b"MCR ", "MooseCree", "Moose Cree", "crm"),
    (b"MDE ", "Mende", "Mende", "men"),
    (b"MDR ", "Mandar", "Mandar", "mdr"),
    (b"MEN ", "Meen", "Me’en", "mym"),
    (b"MER ", "Meru", "Meru", "mer"),
    (b"MFE ", "Morisyen", "Morisyen", "mfe"),
    (b"MIN ", "Minangkabau", "Minangkabau", "min"),
    (b"MIZ ", "Mizo", "Mizo", "lus"),
    (b"MKD ", "Macedonian", "Macedonian", "mkd"),
    (b"MKR ", "Makasar", "Makasar", "mak"),
    (b"MKW ", "Kituba", "Kituba", "mkw"),
    (b"MLE ", "Male", "Male", "mdy"),
    (b"MLG ", "Malagasy", "Malagasy", "mlg"),
    (b"MLN ", "Malinke", "Malinke", "mlq"),
    (b"MLR ", "MalayalamReformed", "Malayalam Reformed", "mal"),
    (b"MLY ", "Malay", "Malay", "msa"),
    (b"MND ", "Mandinka", "Mandinka", "mnk"),
    (b"MNG ", "Mongolian", "Mongolian", "mon"),
    (b"MNI ", "Manipuri", "Manipuri", "mni"),
    (b"MNK ", "Maninka", "Maninka", "man, mnk, myq, mku, msc, emk, mwk, mlq"),
    (b"MNX ", "Manx", "Manx", "glv"),
    (b"MOH ", "Mohawk", "Mohawk", "moh"),
    (b"MOK ", "Moksha", "Moksha", "mdf"),
    (b"MOL ", "Moldavian", "Moldavian", "mol"),
    (b"MON ", "Mon", "Mon", "mnw"),
    (b"MOR ", "Moroccan", "Moroccan", ""),
    (b"MOS ", "Mossi", "Mossi", "mos"),
    (b"MRI ", "Maori", "Maori", "mri"),
    (b"MTH ", "Maithili", "Maithili", "mai"),
    (b"MTS ", "Maltese", "Maltese", "mlt"),
    (b"MUN ", "Mundari", "Mundari", "unr"),
    (b"MUS ", "Muscogee", "Muscogee", "mus"),
    (b"MWL ", "Mirandese", "Mirandese", "mwl"),
    (b"MWW ", "HmongDaw", "Hmong Daw", "mww"),
    (b"MYN ", "Mayan", "Mayan", "myn"),
    (b"MZN ", "Mazanderani", "Mazanderani", "mzn"),
    (b"NAG ", "NagaAssamese", "Naga-Assamese", "nag"),
    (b"NAH ", "Nahuatl", "Nahuatl", "nah"),
    (b"NAN ", "Nanai", "Nanai", "gld"),
    (b"NAP ", "Neapolitan", "Neapolitan", "nap"),
    (b"NAS ", "Naskapi", "Naskapi", "nsk"),
    (b"NAU ", "Nauruan", "Nauruan", "nau"),
    (b"NAV ", "Navajo", "Navajo", "nav"),
    (b"NCR ", "NCree", "N-Cree", "csw"),
    (b"NDB ", "Ndebele", "Ndebele", "nbl, nde"),
    (b"NDC ", "Ndau", "Ndau", "ndc"),
    (b"NDG ", "Ndonga", "Ndonga", "ndo"),
    (b"NDS ", "LowSaxon", "Low Saxon", "nds"),
    (b"NEP ", "Nepali", "Nepali", "nep"),
    (b"NEW ", "Newari", "Newari", "new"),
    (b"NGA ", "Ngbaka", "Ngbaka", "nga"),
    (b"NGR ", "Nagari", "Nagari", ""),
    (b"NHC ", "NorwayHouseCree", "Norway House Cree", "csw"),
    (b"NIS ", "Nisi", "Nisi", "dap"),
    (b"NIU ", "Niuean", "Niuean", "niu"),
    (b"NKL ", "Nyankole", "Nyankole", "nyn"),
    (b"NKO ", "NKo", "N’Ko", "nqo"),
    (b"NLD ", "Dutch", "Dutch", "nld"),
    (b"NOE ", "Nimadi", "Nimadi", "noe"),
    (b"NOG ", "Nogai", "Nogai", "nog"),
    (b"NOR ", "Norwegian", "Norwegian", "nob"),
    (b"NOV ", "Novial", "Novial", "nov"),
    (b"NSM ", "NorthernSami", "Northern Sami", "sme"),
    (b"NSO ", "NorthernSotho", "Sotho, Northern", "nso"),
    (b"NTA ", "NorthernTai", "Northern Tai", "nod"),
    (b"NTO ", "Esperanto", "Esperanto", "epo"),
    (b"NYM ", "Nyamwezi", "Nyamwezi", "nym"),
    (b"NYN ", "NorwegianNynorsk", "Norwegian Nynorsk (Nynorsk, Norwegian)", "nno"),
    (b"NZA ", "MbembeTigon", "Mbembe Tigon", "nza"),
    (b"OCI ", "Occitan", "Occitan", "oci"),
    (b"OCR ", "OjiCree", "Oji-Cree", "ojs"),
    (b"OJB ", "Ojibway", "Ojibway", "oji"),
    (b"ORI ", "Odia", "Odia", "ori"),
    (b"ORO ", "Oromo", "Oromo", "orm"),
    (b"OSS ", "Ossetian", "Ossetian", "oss"),
    (b"PAA ", "PalestinianAramaic", "Palestinian Aramaic", "sam"),
    (b"PAG ", "Pangasinan", "Pangasinan", "pag"),
    (b"PAL ", "Pali", "Pali", "pli"),
    (b"PAM ", "Pampangan", "Pampangan", "pam"),
    (b"PAN ", "Punjabi", "Punjabi", "pan"),
    (b"PAP ", "Palpa", "Palpa", "plp"),
    (b"PAP0", "Papiamentu", "Papiamentu", "pap"),
    (b"PAS ", "Pashto", "Pashto", "pus"),
    (b"PAU ", "Palauan", "Palauan", "pau"),
    (b"PCC ", "Bouyei", "Bouyei", "pcc"),
    (b"PCD ", "Picard", "Picard", "pcd"),
    (b"PDC ", "PennsylvaniaGerman", "Pennsylvania German", "pdc"),
    (b"PGR ", "PolytonicGreek", "Polytonic Greek", "ell"),
    (b"PHK ", "Phake", "Phake", "phk"),
    (b"PIH ", "Norfolk", "Norfolk", "pih"),
    (b"PIL ", "Filipino", "Filipino", "fil"),
    (b"PLG ", "Palaung", "Palaung", "pce, rbb, pll"),
    (b"PLK ", "Polish", "Polish", "pol"),
    (b"PMS ", "Piemontese", "Piemontese", "pms"),
    (b"PNB ", "WesternPanjabi", "Western Panjabi", "pnb"),
    (b"POH ", "Pocomchi", "Pocomchi", "poh"),
    (b"PON ", "Pohnpeian", "Pohnpeian", "pon"),
    (b"PRO ", "Provencal", "Provencal", "pro"),
    (b"PTG ", "Portuguese", "Portuguese", "por"),
    (b"PWO ", "WesternPwoKaren", "Western Pwo Karen", "pwo"),
    (b"QIN ", "Chin", "Chin", "bgr, cnh, cnw, czt, sez, tcp, csy, ctd, flm, pck, tcz, zom, \
                                  cmr, dao, hlt, cka, cnk, mrh, mwg, cbl, cnb, csh"),
    (b"QUC ", "Kiche", "K’iche’", "quc"),
    (b"QUH ", "QuechuaBolivia", "Quechua (Bolivia)", "quh"),
    (b"QUZ ", "Quechua", "Quechua", "quz"),
    (b"QVI ", "QuechuaEcuador", "Quechua (Ecuador)", "qvi"),
    (b"QWH ", "QuechuaPeru", "Quechua (Peru)", "qwh"),
    (b"RAJ ", "Rajasthani", "Rajasthani", "raj"),
    (b"RAR ", "Rarotongan", "Rarotongan", "rar"),
    (b"RBU ", "RussianBuriat", "Russian Buriat", "bxr"),
    (b"RCR ", "RCree", "R-Cree", "atj"),
    (b"REJ ", "Rejang", "Rejang", "rej"),
    (b"RIA ", "Riang", "Riang", "ria"),
    (b"RIF ", "Tarifit", "Tarifit", "rif"),
    (b"RIT ", "Ritarungo", "Ritarungo", "rit"),
    (b"RKW ", "Arakwal", "Arakwal", "rkw"),
    (b"RMS ", "Romansh", "Romansh", "roh"),
    (b"RMY ", "VlaxRomani", "Vlax Romani", "rmy"),
    (b"ROM ", "Romanian", "Romanian", "ron"),
    (b"ROY ", "Romany", "Romany", "rom"),
    (b"RSY ", "Rusyn", "Rusyn", "rue"),
    (b"RTM ", "Rotuman", "Rotuman", "rtm"),
    (b"RUA ", "Kinyarwanda", "Kinyarwanda", "kin"),
    (b"RUN ", "Rundi", "Rundi", "run"),
    (b"RUP ", "Aromanian", "Aromanian", "rup"),
    (b"RUS ", "Russian", "Russian", "rus"),
    (b"SAD ", "Sadri", "Sadri", "sck"),
    (b"SAN ", "Sanskrit", "Sanskrit", "san"),
    (b"SAS ", "Sasak", "Sasak", "sas"),
    (b"SAT ", "Santali", "Santali", "sat"),
    (b"SAY ", "Sayisi", "Sayisi", "chp"),
    (b"SCN ", "Sicilian", "Sicilian", "scn"),
    (b"SCO ", "Scots", "Scots", "sco"),
    (b"SEK ", "Sekota", "Sekota", "xan"),
    (b"SEL ", "Selkup", "Selkup", "sel"),
    (b"SGA ", "OldIrish", "Old Irish", "sga"),
    (b"SGO ", "Sango", "Sango", "sag"),
    (b"SGS ", "Samogitian", "Samogitian", "sgs"),
    (b"SHI ", "Tachelhit", "Tachelhit", "shi"),
    (b"SHN ", "Shan", "Shan", "shn"),
    (b"SIB ", "Sibe", "Sibe", "sjo"),
    (b"SID ", "Sidamo", "Sidamo", "sid"),
    (b"SIG ", "SilteGurage", "Silte Gurage", "xst"),
    (b"SKS ", "SkoltSami", "Skolt Sami", "sms"),
    (b"SKY ", "Slovak", "Slovak", "slk"),
    (b"SCS ", "NorthSlavey", "North Slavey", "scs"),
    (b"SLA ", "Slavey", "Slavey", "scs, xsl"),
    (b"SLV ", "Slovenian", "Slovenian", "slv"),
    (b"SML ", "Somali", "Somali", "som"),
    (b"SMO ", "Samoan", "Samoan", "smo"),
    (b"SNA ", "Sena", "Sena", "seh"),
    (b"SNA0", "Shona", "Shona", "sna"),
    (b"SND ", "Sindhi", "Sindhi", "snd"),
    (b"SNH ", "Sinhala", "Sinhala (Sinhalese)", "sin"),
    (b"SNK ", "Soninke", "Soninke", "snk"),
    (b"SOG ", "SodoGurage", "Sodo Gurage", "gru"),
    (b"SOP ", "Songe", "Songe", "sop"),
    (b"SOT ", "SouthernSotho", "Sotho, Southern", "sot"),
    (b"SQI ", "Albanian", "Albanian", "sqi"),
    (b"SRB ", "Serbian", "Serbian", "srp"),
    (b"SRD ", "Sardinian", "Sardinian", "srd"),
    (b"SRK ", "Saraiki", "Saraiki", "skr"),
    (b"SRR ", "Serer", "Serer", "srr"),
    (b"SSL ", "SouthSlavey", "South Slavey", "xsl"),
    (b"SSM ", "SouthernSami", "Southern Sami", "sma"),
    (b"STQ ", "SaterlandFrisian", "Saterland Frisian", "stq"),
    (b"SUK ", "Sukuma", "Sukuma", "suk"),
    (b"SUN ", "Sundanese", "Sundanese", "sun"),
    (b"SUR ", "Suri", "Suri", "suq"),
    (b"SVA ", "Svan", "Svan", "sva"),
    (b"SVE ", "Swedish", "Swedish", "swe"),
    (b"SWA ", "SwadayaAramaic", "Swadaya Aramaic", "aii"),
    (b"SWK ", "Swahili", "Swahili", "swa"),
    (b"SWZ ", "Swati", "Swati", "ssw"),
    (b"SXT ", "Sutu", "Sutu", "ngo"),
    (b"SXU ", "UpperSaxon", "Upper Saxon", "sxu"),
    (b"SYL ", "Sylheti", "Sylheti", "syl"),
    (b"SYR ", "Syriac", "Syriac", "syr"),
    (b"SZL ", "Silesian", "Silesian", "szl"),
    (b"TAB ", "Tabasaran", "Tabasaran", "tab"),
    (b"TAJ ", "Tajiki", "Tajiki", "tgk"),
    (b"TAM ", "Tamil", "Tamil", "tam"),
    (b"TAT ", "Tatar", "Tatar", "tat"),
    (b"TCR ", "THCree", "TH-Cree", "cwd"),
    (b"TDD ", "DehongDai", "Dehong Dai", "tdd"),
    (b"TEL ", "Telugu", "Telugu", "tel"),
    (b"TET ", "Tetum", "Tetum", "tet"),
    (b"TGL ", "Tagalog", "Tagalog", "tgl"),
    (b"TGN ", "Tongan", "Tongan", "ton"),
    (b"TGR ", "Tigre", "Tigre", "tig"),
    (b"TGY ", "Tigrinya", "Tigrinya", "tir"),
    (b"THA ", "Thai", "Thai", "tha"),
    (b"THT ", "Tahitian", "Tahitian", "tah"),
    (b"TIB ", "Tibetan", "Tibetan", "bod"),
    (b"TIV ", "Tiv", "Tiv", "tiv"),
    (b"TKM ", "Turkmen", "Turkmen", "tuk"),
    (b"TMH ", "Tamashek", "Tamashek", "tmh"),
    (b"TMN ", "Temne", "Temne", "tem"),
    (b"TNA ", "Tswana", "Tswana", "tsn"),
    (b"TNE ", "TundraNenets", "Tundra Nenets", "enh"),
    (b"TNG ", "Tonga", "Tonga", "toi"),
    (b"TOD ", "Todo", "Todo", "xal"),
    (b"TOD0", "Toma", "Toma", "tod"),
    (b"TPI ", "TokPisin", "Tok Pisin", "tpi"),
    (b"TRK ", "Turkish", "Turkish", "tur"),
    (b"TSG ", "Tsonga", "Tsonga", "tso"),
    (b"TUA ", "TuroyoAramaic", "Turoyo Aramaic", "tru"),
    (b"TUM ", "Tumbuka", "Tumbuka", "tum"),
    (b"TUL ", "Tulu", "Tulu", "tcy"),
    (b"TUV ", "Tuvin", "Tuvin", "tyv"),
    (b"TVL ", "Tuvalu", "Tuvalu", "tvl"),
    (b"TWI ", "Twi", "Twi", "aka"),
    (b"TYZ ", "Tay", "Tày", "tyz"),
    (b"TZM ", "Tamazight", "Tamazight", "tzm"),
    (b"TZO ", "Tzotzil", "Tzotzil", "tzo"),
    (b"UDM ", "Udmurt", "Udmurt", "udm"),
    (b"UKR ", "Ukrainian", "Ukrainian", "ukr"),
    (b"UMB ", "Umbundu", "Umbundu", "umb"),
    (b"URD ", "Urdu", "Urdu", "urd"),
    (b"USB ", "UpperSorbian", "Upper Sorbian", "hsb"),
    (b"UYG ", "Uyghur", "Uyghur", "uig"),
    (b"UZB ", "Uzbek", "Uzbek", "uzb"),
    (b"VEC ", "Venetian", "Venetian", "vec"),
    (b"VEN ", "Venda", "Venda", "ven"),
    (b"VIT ", "Vietnamese", "Vietnamese", "vie"),
    (b"VOL ", "Volapuk", "Volapük", "vol"),
    (b"VRO ", "Voro", "Võro", "vro"),
    (b"WA  ", "Wa", "Wa", "wbm"),
    (b"WAG ", "Wagdi", "Wagdi", "wbr"),
    (b"WAR ", "WarayWaray", "Waray-Waray", "war"),
    (b"WCR ", "WestCree", "West-Cree", "crk"),
    (b"WEL ", "Welsh", "Welsh", "cym"),
    (b"WLN ", "Walloon", "Walloon", "wln"),
    (b"WLF ", "Wolof", "Wolof", "wol"),
    (b"WTM ", "Mewati", "Mewati", "wtm"),
    (b"XBD ", "Lu", "Lü", "khb"),
    (b"XHS ", "Xhosa", "Xhosa", "xho"),
    (b"XJB ", "Minjangbal", "Minjangbal", "xjb"),
    (b"XOG ", "Soga", "Soga", "xog"),
    (b"XPE ", "KpelleLiberia", "Kpelle (Liberia)", "xpe"),
    (b"YAK ", "Sakha", "Sakha", "sah"),
    (b"YAO ", "Yao", "Yao", "yao"),
    (b"YAP ", "Yapese", "Yapese", "yap"),
    (b"YBA ", "Yoruba", "Yoruba", "yor"),
    (b"YCR ", "YCree", "Y-Cree", "cre"),
    (b"YIC ", "YiClassic", "Yi Classic", ""),
    (b"YIM ", "YiModern", "Yi Modern", "iii"),
    (b"ZEA ", "Zealandic", "Zealandic", "zea"),
    (b"ZGH ", "StandardMorrocanTamazigh", "Standard Morrocan Tamazigh", "zgh"),
    (b"ZHA ", "Zhuang", "Zhuang", "zha"),
    (b"ZHH ", "Chinese", "Chinese, Hong Kong SAR", "zho"),
    (b"ZHP ", "ChinesePhonetic", "Chinese Phonetic", "zho"),
    (b"ZHS ", "ChineseSimplified", "Chinese Simplified", "zho"),
    (b"ZHT ", "ChineseTraditional", "Chinese Traditional", "zho"),
    (b"ZND ", "Zande", "Zande", "zne"),
    (b"ZUL ", "Zulu", "Zulu", "zul"),
    (b"ZZA ", "Zazaki", "Zazaki", "zza"),
];
