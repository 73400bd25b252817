//! Lexicons of every size of token set. The first, a middle and the last type
//! have rules; the others are semantic types.
use teleparse::prelude::*;

pub mod w1 {
    use super::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(First = "a"))]
        V0,
    }
}

pub mod w2 {
    use super::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(First = "a"))]
        V0,
        #[teleparse(terminal(Last = "z"))]
        V1,
    }
}

pub mod w7 {
    use super::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(First = "a"))]
        V0,
        V1,
        V2,
        #[teleparse(regex(r"[0-9]+"))]
        V3,
        V4,
        V5,
        #[teleparse(terminal(Last = "z"))]
        V6,
    }
}

pub mod w8 {
    use super::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(First = "a"))]
        V0,
        V1,
        V2,
        V3,
        #[teleparse(regex(r"[0-9]+"))]
        V4,
        V5,
        V6,
        #[teleparse(terminal(Last = "z"))]
        V7,
    }
}

pub mod w9 {
    use super::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(First = "a"))]
        V0,
        V1,
        V2,
        V3,
        #[teleparse(regex(r"[0-9]+"))]
        V4,
        V5,
        V6,
        V7,
        #[teleparse(terminal(Last = "z"))]
        V8,
    }
}

pub mod w16 {
    use super::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(First = "a"))]
        V0,
        V1,
        V2,
        V3,
        V4,
        V5,
        V6,
        V7,
        #[teleparse(regex(r"[0-9]+"))]
        V8,
        V9,
        V10,
        V11,
        V12,
        V13,
        V14,
        #[teleparse(terminal(Last = "z"))]
        V15,
    }
}

pub mod w17 {
    use super::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(First = "a"))]
        V0,
        V1,
        V2,
        V3,
        V4,
        V5,
        V6,
        V7,
        #[teleparse(regex(r"[0-9]+"))]
        V8,
        V9,
        V10,
        V11,
        V12,
        V13,
        V14,
        V15,
        #[teleparse(terminal(Last = "z"))]
        V16,
    }
}

pub mod w32 {
    use super::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(First = "a"))]
        V0,
        V1,
        V2,
        V3,
        V4,
        V5,
        V6,
        V7,
        V8,
        V9,
        V10,
        V11,
        V12,
        V13,
        V14,
        V15,
        #[teleparse(regex(r"[0-9]+"))]
        V16,
        V17,
        V18,
        V19,
        V20,
        V21,
        V22,
        V23,
        V24,
        V25,
        V26,
        V27,
        V28,
        V29,
        V30,
        #[teleparse(terminal(Last = "z"))]
        V31,
    }
}

pub mod w33 {
    use super::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(First = "a"))]
        V0,
        V1,
        V2,
        V3,
        V4,
        V5,
        V6,
        V7,
        V8,
        V9,
        V10,
        V11,
        V12,
        V13,
        V14,
        V15,
        #[teleparse(regex(r"[0-9]+"))]
        V16,
        V17,
        V18,
        V19,
        V20,
        V21,
        V22,
        V23,
        V24,
        V25,
        V26,
        V27,
        V28,
        V29,
        V30,
        V31,
        #[teleparse(terminal(Last = "z"))]
        V32,
    }
}

pub mod w64 {
    use super::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(First = "a"))]
        V0,
        V1,
        V2,
        V3,
        V4,
        V5,
        V6,
        V7,
        V8,
        V9,
        V10,
        V11,
        V12,
        V13,
        V14,
        V15,
        V16,
        V17,
        V18,
        V19,
        V20,
        V21,
        V22,
        V23,
        V24,
        V25,
        V26,
        V27,
        V28,
        V29,
        V30,
        V31,
        #[teleparse(regex(r"[0-9]+"))]
        V32,
        V33,
        V34,
        V35,
        V36,
        V37,
        V38,
        V39,
        V40,
        V41,
        V42,
        V43,
        V44,
        V45,
        V46,
        V47,
        V48,
        V49,
        V50,
        V51,
        V52,
        V53,
        V54,
        V55,
        V56,
        V57,
        V58,
        V59,
        V60,
        V61,
        V62,
        #[teleparse(terminal(Last = "z"))]
        V63,
    }
}

pub mod w65 {
    use super::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(First = "a"))]
        V0,
        V1,
        V2,
        V3,
        V4,
        V5,
        V6,
        V7,
        V8,
        V9,
        V10,
        V11,
        V12,
        V13,
        V14,
        V15,
        V16,
        V17,
        V18,
        V19,
        V20,
        V21,
        V22,
        V23,
        V24,
        V25,
        V26,
        V27,
        V28,
        V29,
        V30,
        V31,
        #[teleparse(regex(r"[0-9]+"))]
        V32,
        V33,
        V34,
        V35,
        V36,
        V37,
        V38,
        V39,
        V40,
        V41,
        V42,
        V43,
        V44,
        V45,
        V46,
        V47,
        V48,
        V49,
        V50,
        V51,
        V52,
        V53,
        V54,
        V55,
        V56,
        V57,
        V58,
        V59,
        V60,
        V61,
        V62,
        V63,
        #[teleparse(terminal(Last = "z"))]
        V64,
    }
}

pub mod w127 {
    use super::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(First = "a"))]
        V0,
        V1,
        V2,
        V3,
        V4,
        V5,
        V6,
        V7,
        V8,
        V9,
        V10,
        V11,
        V12,
        V13,
        V14,
        V15,
        V16,
        V17,
        V18,
        V19,
        V20,
        V21,
        V22,
        V23,
        V24,
        V25,
        V26,
        V27,
        V28,
        V29,
        V30,
        V31,
        V32,
        V33,
        V34,
        V35,
        V36,
        V37,
        V38,
        V39,
        V40,
        V41,
        V42,
        V43,
        V44,
        V45,
        V46,
        V47,
        V48,
        V49,
        V50,
        V51,
        V52,
        V53,
        V54,
        V55,
        V56,
        V57,
        V58,
        V59,
        V60,
        V61,
        V62,
        #[teleparse(regex(r"[0-9]+"))]
        V63,
        V64,
        V65,
        V66,
        V67,
        V68,
        V69,
        V70,
        V71,
        V72,
        V73,
        V74,
        V75,
        V76,
        V77,
        V78,
        V79,
        V80,
        V81,
        V82,
        V83,
        V84,
        V85,
        V86,
        V87,
        V88,
        V89,
        V90,
        V91,
        V92,
        V93,
        V94,
        V95,
        V96,
        V97,
        V98,
        V99,
        V100,
        V101,
        V102,
        V103,
        V104,
        V105,
        V106,
        V107,
        V108,
        V109,
        V110,
        V111,
        V112,
        V113,
        V114,
        V115,
        V116,
        V117,
        V118,
        V119,
        V120,
        V121,
        V122,
        V123,
        V124,
        V125,
        #[teleparse(terminal(Last = "z"))]
        V126,
    }
}

pub mod w128 {
    use super::*;
    #[derive_lexicon]
    pub enum L {
        #[teleparse(terminal(First = "a"))]
        V0,
        V1,
        V2,
        V3,
        V4,
        V5,
        V6,
        V7,
        V8,
        V9,
        V10,
        V11,
        V12,
        V13,
        V14,
        V15,
        V16,
        V17,
        V18,
        V19,
        V20,
        V21,
        V22,
        V23,
        V24,
        V25,
        V26,
        V27,
        V28,
        V29,
        V30,
        V31,
        V32,
        V33,
        V34,
        V35,
        V36,
        V37,
        V38,
        V39,
        V40,
        V41,
        V42,
        V43,
        V44,
        V45,
        V46,
        V47,
        V48,
        V49,
        V50,
        V51,
        V52,
        V53,
        V54,
        V55,
        V56,
        V57,
        V58,
        V59,
        V60,
        V61,
        V62,
        V63,
        #[teleparse(regex(r"[0-9]+"))]
        V64,
        V65,
        V66,
        V67,
        V68,
        V69,
        V70,
        V71,
        V72,
        V73,
        V74,
        V75,
        V76,
        V77,
        V78,
        V79,
        V80,
        V81,
        V82,
        V83,
        V84,
        V85,
        V86,
        V87,
        V88,
        V89,
        V90,
        V91,
        V92,
        V93,
        V94,
        V95,
        V96,
        V97,
        V98,
        V99,
        V100,
        V101,
        V102,
        V103,
        V104,
        V105,
        V106,
        V107,
        V108,
        V109,
        V110,
        V111,
        V112,
        V113,
        V114,
        V115,
        V116,
        V117,
        V118,
        V119,
        V120,
        V121,
        V122,
        V123,
        V124,
        V125,
        V126,
        #[teleparse(terminal(Last = "z"))]
        V127,
    }
}
