//! Stand-in for `unicode-general-category`: exact for ASCII, an approximation beyond it.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum GeneralCategory {
    DecimalNumber,
    EnclosingMark,
    SpacingMark,
    NonspacingMark,
    LetterNumber,
    OtherLetter,
    ModifierLetter,
    LowercaseLetter,
    UppercaseLetter,
    TitlecaseLetter,
    OtherSymbol,
}
pub fn get_general_category(c: char) -> GeneralCategory {
    use GeneralCategory::*;
    if c.is_ascii_digit() {
        DecimalNumber
    } else if c.is_lowercase() {
        LowercaseLetter
    } else if c.is_uppercase() {
        UppercaseLetter
    } else if c.is_alphabetic() {
        OtherLetter
    } else {
        OtherSymbol
    }
}
