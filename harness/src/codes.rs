//! Codes used by the reference tables and the names PropertyValueAliases.txt gives each value.

#[cfg(feature = "unic-ucd-category")]
pub mod gc {
    use unic_ucd_category::GeneralCategory as T;
    pub fn code(x: T) -> u32 { match x { T::UppercaseLetter => 0, T::LowercaseLetter => 1, T::TitlecaseLetter => 2, T::ModifierLetter => 3, T::OtherLetter => 4, T::NonspacingMark => 5, T::SpacingMark => 6, T::EnclosingMark => 7, T::DecimalNumber => 8, T::LetterNumber => 9, T::OtherNumber => 10, T::ConnectorPunctuation => 11, T::DashPunctuation => 12, T::OpenPunctuation => 13, T::ClosePunctuation => 14, T::InitialPunctuation => 15, T::FinalPunctuation => 16, T::OtherPunctuation => 17, T::MathSymbol => 18, T::CurrencySymbol => 19, T::ModifierSymbol => 20, T::OtherSymbol => 21, T::SpaceSeparator => 22, T::LineSeparator => 23, T::ParagraphSeparator => 24, T::Control => 25, T::Format => 26, T::Surrogate => 27, T::PrivateUse => 28, T::Unassigned => 29 } }
    pub fn all() -> [(T, &'static str, &'static str); 30] { [(T::UppercaseLetter, "Lu", "Uppercase_Letter"), (T::LowercaseLetter, "Ll", "Lowercase_Letter"), (T::TitlecaseLetter, "Lt", "Titlecase_Letter"), (T::ModifierLetter, "Lm", "Modifier_Letter"), (T::OtherLetter, "Lo", "Other_Letter"), (T::NonspacingMark, "Mn", "Nonspacing_Mark"), (T::SpacingMark, "Mc", "Spacing_Mark"), (T::EnclosingMark, "Me", "Enclosing_Mark"), (T::DecimalNumber, "Nd", "Decimal_Number"), (T::LetterNumber, "Nl", "Letter_Number"), (T::OtherNumber, "No", "Other_Number"), (T::ConnectorPunctuation, "Pc", "Connector_Punctuation"), (T::DashPunctuation, "Pd", "Dash_Punctuation"), (T::OpenPunctuation, "Ps", "Open_Punctuation"), (T::ClosePunctuation, "Pe", "Close_Punctuation"), (T::InitialPunctuation, "Pi", "Initial_Punctuation"), (T::FinalPunctuation, "Pf", "Final_Punctuation"), (T::OtherPunctuation, "Po", "Other_Punctuation"), (T::MathSymbol, "Sm", "Math_Symbol"), (T::CurrencySymbol, "Sc", "Currency_Symbol"), (T::ModifierSymbol, "Sk", "Modifier_Symbol"), (T::OtherSymbol, "So", "Other_Symbol"), (T::SpaceSeparator, "Zs", "Space_Separator"), (T::LineSeparator, "Zl", "Line_Separator"), (T::ParagraphSeparator, "Zp", "Paragraph_Separator"), (T::Control, "Cc", "Control"), (T::Format, "Cf", "Format"), (T::Surrogate, "Cs", "Surrogate"), (T::PrivateUse, "Co", "Private_Use"), (T::Unassigned, "Cn", "Unassigned")] }
}
#[cfg(feature = "unic-ucd-bidi")]
pub mod bc {
    use unic_ucd_bidi::BidiClass as T;
    pub fn code(x: T) -> u32 { match x { T::LeftToRight => 0, T::RightToLeft => 1, T::ArabicLetter => 2, T::EuropeanNumber => 3, T::EuropeanSeparator => 4, T::EuropeanTerminator => 5, T::ArabicNumber => 6, T::CommonSeparator => 7, T::NonspacingMark => 8, T::BoundaryNeutral => 9, T::ParagraphSeparator => 10, T::SegmentSeparator => 11, T::WhiteSpace => 12, T::OtherNeutral => 13, T::LeftToRightEmbedding => 14, T::LeftToRightOverride => 15, T::RightToLeftEmbedding => 16, T::RightToLeftOverride => 17, T::PopDirectionalFormat => 18, T::LeftToRightIsolate => 19, T::RightToLeftIsolate => 20, T::FirstStrongIsolate => 21, T::PopDirectionalIsolate => 22 } }
    pub fn all() -> [(T, &'static str, &'static str); 23] { [(T::LeftToRight, "L", "Left_To_Right"), (T::RightToLeft, "R", "Right_To_Left"), (T::ArabicLetter, "AL", "Arabic_Letter"), (T::EuropeanNumber, "EN", "European_Number"), (T::EuropeanSeparator, "ES", "European_Separator"), (T::EuropeanTerminator, "ET", "European_Terminator"), (T::ArabicNumber, "AN", "Arabic_Number"), (T::CommonSeparator, "CS", "Common_Separator"), (T::NonspacingMark, "NSM", "Nonspacing_Mark"), (T::BoundaryNeutral, "BN", "Boundary_Neutral"), (T::ParagraphSeparator, "B", "Paragraph_Separator"), (T::SegmentSeparator, "S", "Segment_Separator"), (T::WhiteSpace, "WS", "White_Space"), (T::OtherNeutral, "ON", "Other_Neutral"), (T::LeftToRightEmbedding, "LRE", "Left_To_Right_Embedding"), (T::LeftToRightOverride, "LRO", "Left_To_Right_Override"), (T::RightToLeftEmbedding, "RLE", "Right_To_Left_Embedding"), (T::RightToLeftOverride, "RLO", "Right_To_Left_Override"), (T::PopDirectionalFormat, "PDF", "Pop_Directional_Format"), (T::LeftToRightIsolate, "LRI", "Left_To_Right_Isolate"), (T::RightToLeftIsolate, "RLI", "Right_To_Left_Isolate"), (T::FirstStrongIsolate, "FSI", "First_Strong_Isolate"), (T::PopDirectionalIsolate, "PDI", "Pop_Directional_Isolate")] }
}
#[cfg(feature = "unic-ucd-segment")]
pub mod gcb {
    use unic_ucd_segment::GraphemeClusterBreak as T;
    pub fn code(x: T) -> u32 { match x { T::Other => 0, T::CR => 1, T::LF => 2, T::Control => 3, T::Extend => 4, T::ZWJ => 5, T::RegionalIndicator => 6, T::Prepend => 7, T::SpacingMark => 8, T::L => 9, T::V => 10, T::T => 11, T::LV => 12, T::LVT => 13, T::EBase => 14, T::EModifier => 15, T::GlueAfterZwj => 16, T::EBaseGAZ => 17 } }
    pub fn all() -> [(T, &'static str, &'static str); 18] { [(T::Other, "XX", "Other"), (T::CR, "CR", "CR"), (T::LF, "LF", "LF"), (T::Control, "CN", "Control"), (T::Extend, "EX", "Extend"), (T::ZWJ, "ZWJ", "ZWJ"), (T::RegionalIndicator, "RI", "Regional_Indicator"), (T::Prepend, "PP", "Prepend"), (T::SpacingMark, "SM", "SpacingMark"), (T::L, "L", "L"), (T::V, "V", "V"), (T::T, "T", "T"), (T::LV, "LV", "LV"), (T::LVT, "LVT", "LVT"), (T::EBase, "EB", "E_Base"), (T::EModifier, "EM", "E_Modifier"), (T::GlueAfterZwj, "GAZ", "Glue_After_Zwj"), (T::EBaseGAZ, "EBG", "E_Base_GAZ")] }
}
#[cfg(feature = "unic-ucd-segment")]
pub mod wb {
    use unic_ucd_segment::WordBreak as T;
    pub fn code(x: T) -> u32 { match x { T::Other => 0, T::CR => 1, T::LF => 2, T::Newline => 3, T::Extend => 4, T::ZWJ => 5, T::RegionalIndicator => 6, T::Format => 7, T::Katakana => 8, T::HebrewLetter => 9, T::ALetter => 10, T::SingleQuote => 11, T::DoubleQuote => 12, T::MidNumLet => 13, T::MidLetter => 14, T::MidNum => 15, T::Numeric => 16, T::ExtendNumLet => 17, T::EBase => 18, T::EModifier => 19, T::GlueAfterZwj => 20, T::EBaseGAZ => 21 } }
    pub fn all() -> [(T, &'static str, &'static str); 22] { [(T::Other, "XX", "Other"), (T::CR, "CR", "CR"), (T::LF, "LF", "LF"), (T::Newline, "NL", "Newline"), (T::Extend, "Extend", "Extend"), (T::ZWJ, "ZWJ", "ZWJ"), (T::RegionalIndicator, "RI", "Regional_Indicator"), (T::Format, "FO", "Format"), (T::Katakana, "KA", "Katakana"), (T::HebrewLetter, "HL", "Hebrew_Letter"), (T::ALetter, "LE", "ALetter"), (T::SingleQuote, "SQ", "Single_Quote"), (T::DoubleQuote, "DQ", "Double_Quote"), (T::MidNumLet, "MB", "MidNumLet"), (T::MidLetter, "ML", "MidLetter"), (T::MidNum, "MN", "MidNum"), (T::Numeric, "NU", "Numeric"), (T::ExtendNumLet, "EX", "ExtendNumLet"), (T::EBase, "EB", "E_Base"), (T::EModifier, "EM", "E_Modifier"), (T::GlueAfterZwj, "GAZ", "Glue_After_Zwj"), (T::EBaseGAZ, "EBG", "E_Base_GAZ")] }
}
#[cfg(feature = "unic-ucd-segment")]
pub mod sb {
    use unic_ucd_segment::SentenceBreak as T;
    pub fn code(x: T) -> u32 { match x { T::Other => 0, T::CR => 1, T::LF => 2, T::Extend => 3, T::Sep => 4, T::Format => 5, T::Sp => 6, T::Lower => 7, T::Upper => 8, T::OLetter => 9, T::Numeric => 10, T::ATerm => 11, T::SContinue => 12, T::STerm => 13, T::Close => 14 } }
    pub fn all() -> [(T, &'static str, &'static str); 15] { [(T::Other, "XX", "Other"), (T::CR, "CR", "CR"), (T::LF, "LF", "LF"), (T::Extend, "Extend", "Extend"), (T::Sep, "SE", "Sep"), (T::Format, "FO", "Format"), (T::Sp, "SP", "Sp"), (T::Lower, "LO", "Lower"), (T::Upper, "UP", "Upper"), (T::OLetter, "LE", "OLetter"), (T::Numeric, "NU", "Numeric"), (T::ATerm, "AT", "ATerm"), (T::SContinue, "SC", "SContinue"), (T::STerm, "ST", "STerm"), (T::Close, "CL", "Close")] }
}
#[cfg(feature = "unic-ucd-normal")]
pub mod dt {
    use unic_ucd_normal::DecompositionType as T;
    pub fn code(x: T) -> u32 { match x { T::Canonical => 0, T::Compat => 1, T::Circle => 2, T::Final => 3, T::Font => 4, T::Fraction => 5, T::Initial => 6, T::Isolated => 7, T::Medial => 8, T::Narrow => 9, T::NoBreak => 10, T::Small => 12, T::Square => 13, T::Sub => 14, T::Super => 15, T::Vertical => 16, T::Wide => 17 } }
    pub fn all() -> [(T, &'static str, &'static str); 17] { [(T::Canonical, "Can", "Canonical"), (T::Compat, "Com", "Compat"), (T::Circle, "Enc", "Circle"), (T::Final, "Fin", "Final"), (T::Font, "Font", "Font"), (T::Fraction, "Fra", "Fraction"), (T::Initial, "Init", "Initial"), (T::Isolated, "Iso", "Isolated"), (T::Medial, "Med", "Medial"), (T::Narrow, "Nar", "Narrow"), (T::NoBreak, "Nb", "Nobreak"), (T::Small, "Sml", "Small"), (T::Square, "Sqr", "Square"), (T::Sub, "Sub", "Sub"), (T::Super, "Sup", "Super"), (T::Vertical, "Vert", "Vertical"), (T::Wide, "Wide", "Wide")] }
}
