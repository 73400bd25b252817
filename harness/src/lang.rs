//! The lexicon most parser harnesses use: every token but a quoted word is one byte, so
//! that a source of n symbolic bytes is a symbolic sequence of n tokens.
use teleparse::prelude::*;

#[derive_lexicon]
#[teleparse(ignore(r" +"))]
pub enum L0 {
    #[teleparse(regex(r"[a-dA]'?"), terminal(Id, KwA = "a", KwB = "b"))]
    Word,
    #[teleparse(terminal(Add = "+", Mul = "*"))]
    Op,
    #[teleparse(terminal(Po = "(", Pc = ")"))]
    Paren,
    #[teleparse(regex(r"[0-3]"), terminal(Num))]
    Digit,
    #[teleparse(terminal(Semi = ";"))]
    Delim,
    /// extracted: no terminal
    #[teleparse(regex(r"#"))]
    Comment,
    Sem1,
    Sem2,
    Sem3,
}

/// Classes of tokens that no terminal of the lexicon can tell apart.
pub const ATOMS: u32 = 9;
pub const A_A: u32 = 1 << 0;
pub const A_B: u32 = 1 << 1;
pub const A_W: u32 = 1 << 2;
pub const A_ADD: u32 = 1 << 3;
pub const A_MUL: u32 = 1 << 4;
pub const A_PO: u32 = 1 << 5;
pub const A_PC: u32 = 1 << 6;
pub const A_NUM: u32 = 1 << 7;
pub const A_SEMI: u32 = 1 << 8;

/// A text and type for every atom, to ask the sets of the code about it.
pub const ATOM_TEXT: [(L0, &str); 9] = [
    (L0::Word, "a"),
    (L0::Word, "b"),
    (L0::Word, "c"),
    (L0::Op, "+"),
    (L0::Op, "*"),
    (L0::Paren, "("),
    (L0::Paren, ")"),
    (L0::Digit, "1"),
    (L0::Delim, ";"),
];

/// The atom of a byte that is a token, or 0.
pub fn atom(c: u8) -> u32 {
    match c {
        b'a' => A_A,
        b'b' => A_B,
        b'c' | b'd' | b'A' => A_W,
        b'+' => A_ADD,
        b'*' => A_MUL,
        b'(' => A_PO,
        b')' => A_PC,
        b'0'..=b'3' => A_NUM,
        b';' => A_SEMI,
        _ => 0,
    }
}
pub fn ty_of(atom: u32) -> L0 {
    match atom {
        A_A | A_B | A_W => L0::Word,
        A_ADD | A_MUL => L0::Op,
        A_PO | A_PC => L0::Paren,
        A_NUM => L0::Digit,
        _ => L0::Delim,
    }
}

/// Every byte that is a token, with its atom.
pub const BYTES: [(u8, u32); 14] = [
    (b'a', A_A),
    (b'b', A_B),
    (b'c', A_W),
    (b'd', A_W),
    (b'A', A_W),
    (b'+', A_ADD),
    (b'*', A_MUL),
    (b'(', A_PO),
    (b')', A_PC),
    (b'0', A_NUM),
    (b'1', A_NUM),
    (b'2', A_NUM),
    (b'3', A_NUM),
    (b';', A_SEMI),
];
/// A word of one letter may be followed by a quote; it is no keyword then.
pub const QUOTED: &[u8] = b"abcA'1+*();";
/// Alphabets: tokens only; and with ignored, extracted and invalid bytes.
pub const TOKENS_ONLY: &[u8] = b"abcdA0123+*();";
pub const EVERYTHING: &[u8] = b"abcd0123+*(); #!?";
