//! Character classes of SPARQL 1.1, section 19.8, productions [164]-[173].
//! Written from the recommendation, independently of the library.

pub fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}
pub fn pn_chars_base(c: char) -> bool {
    matches!(c,
        'A'..='Z' | 'a'..='z'
        | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
        | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}'
        | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
        | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}
pub fn pn_chars_u(c: char) -> bool {
    pn_chars_base(c) || c == '_'
}
pub fn pn_chars(c: char) -> bool {
    pn_chars_u(c)
        || c == '-'
        || c.is_ascii_digit()
        || c == '\u{B7}'
        || ('\u{300}'..='\u{36F}').contains(&c)
        || ('\u{203F}'..='\u{2040}').contains(&c)
}
pub fn varname_start(c: char) -> bool {
    pn_chars_u(c) || c.is_ascii_digit()
}
pub fn varname_rest(c: char) -> bool {
    varname_start(c)
        || c == '\u{B7}'
        || ('\u{300}'..='\u{36F}').contains(&c)
        || ('\u{203F}'..='\u{2040}').contains(&c)
}
pub fn iriref_char(c: char) -> bool {
    !matches!(c, '<' | '>' | '"' | '{' | '}' | '|' | '^' | '`' | '\\') && c > '\u{20}'
}
pub const LOCAL_ESC: &str = "_~.-!$&'()*+,;=/?#@%";
pub const ECHAR: &str = "tbnrf\\\"'";

/// A sample of code points on and around every class boundary.
pub const INTERESTING: &[char] = &[
    'a', 'z', 'A', 'Z', 'm', 'é', 'ß', 'λ', 'Ж', 'א', '日', '本', '\u{C0}', '\u{D6}', '\u{D8}',
    '\u{F6}', '\u{F8}', '\u{FF}', '\u{100}', '\u{101}', '\u{120}', '\u{130}', '\u{131}', '\u{13E}',
    '\u{13F}', '\u{141}', '\u{15B}', '\u{17A}', '\u{1FF}', '\u{220}', '\u{2FF}', '\u{370}',
    '\u{37D}', '\u{37F}', '\u{400}', '\u{420}', '\u{1FFF}', '\u{200C}', '\u{200D}', '\u{2070}',
    '\u{218F}', '\u{2C00}', '\u{2FEF}', '\u{3001}', '\u{D7FF}', '\u{F900}', '\u{FDCF}',
    '\u{FDF0}', '\u{FFFD}', '\u{10000}', '\u{1F600}', '\u{EFFFF}',
];
/// Legal inside names but not at their start.
pub const INNER: &[char] = &[
    '\u{B7}', '\u{300}', '\u{36F}', '\u{203F}', '\u{2040}', '0', '9', '5',
];
