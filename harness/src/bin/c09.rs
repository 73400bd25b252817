//! C09: the source is cut into tokens by longest match.
use hx::lexing::*;
use hx::*;
harnesses! {
    h_a_any => lex_of!(LA, 3, 4);
    h_b_any => lex_of!(LB, 4, 6);
    h_a_words => lex_of!(LA, 8, 10, b"ifdone1_ =");
    h_a_nums => lex_of!(LA, 8, 10, b"0x9ag =");
    h_a_ops => lex_of!(LA, 8, 10, b"=<> !");
    h_a_comments => lex_of!(LA, 9, 11, b"/*a \n");
    h_a_text => lex_of!(LA, 9, 11, b"\"a\n!");
    h_b_dots => lex_of!(LB, 9, 11, b"0.9 x");
    h_c_any => lex_of!(LC, 3, 4);
    h_c_meta => lex_of!(LC, 6, 8, b".+?=\\d[^");
    h_c_more => lex_of!(LC, 5, 7, b"*({1}|\t'$");
    h_c_quote => lex_of!(LC, 6, 8, b"\"'\\d&1_");
    h_c_ignored => lex_of!(LC, 7, 9, b" ~-\r\na");
    h_c_extracted => lex_of!(LC, 7, 9, b"#a@%c~");
    h_c_words => lex_of!(LC, 6, 8, b"SELAa_10");
    h_long_a => lex_long::<LA>(sym::bound(1, 2), 2, sym::bound(33, 65), b"a1=</*\" !");
    h_long_b => lex_long::<LB>(sym::bound(1, 2), 2, sym::bound(65, 130), b".1 x");
    h_far_a => lex_far::<LA>(sym::bound(3, 4), 65_600, b"a1=</*\" !");
    h_far_c => lex_far::<LC>(sym::bound(3, 4), 65_600, b"~a-#@S+=%!1");
    h_long_c => lex_long::<LC>(1, 2, sym::bound(33, 97), b"~a-#@S+=%!1");
}
