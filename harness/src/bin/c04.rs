//! C04: the table of an accepted grammar selects the right variant.
use hx::sg::*;
use hx::sym::check;
use hx::*;
fn literals<const N: usize>(alpha: &[u8]) {
    let o = hx::lits::list::<N>(alpha);
    check(404, o.got.is_some()); // a list of alternatives is parsed
    if o.want.len() > 1 {
        hx::sym::cover(3);
    }
    check(405, o.got == Some(o.want)); // a token selects the alternative with its literal, or its type
}
harnesses! {
    h_lits_op => if sym::tier() == 0 { literals::<5>(b".+?=\\d[^") } else { literals::<6>(b".+?=\\d[^") };
    h_lits_word => if sym::tier() == 0 { literals::<5>(b"SELA10_#a") } else { literals::<6>(b"SELA10_#a") };
    h_lits_quote => if sym::tier() == 0 { literals::<5>(b"\"'\\\t$|^*(") } else { literals::<6>(b"\"'\\\t$|^*(") };
    h_s3_a2 => shape!(TABLE; [TA, TI]; true, true; seq 3, alt 2);
    h_a3_s2 => shape!(TABLE; [TA, TI]; true, true; alt 3, seq 2);
    h_s3_a3 => shape!(TABLE; [TA, TI, TP]; true, true; seq 3, alt 3);
    h_s4_a2 => shape!(TABLE; [TA, TP]; true, true; seq 4, alt 2);
    t_s4_a3 => shape!(TABLE; [TA, TP]; true, true; seq 4, alt 3);
    h_s2_s3 => shape!(TABLE; [TA, TP]; true, true; seq 2, seq 3);
    h_s2_s4 => shape!(TABLE; [TA, TB]; true, true; seq 2, seq 4);
    h_s2_s5 => shape!(TABLE; [TA, TP]; true, false; seq 2, seq 5);
    h_s5_a2 => shape!(TABLE; [TA, TP]; true, false; seq 5, alt 2);
    h_s2_a2_a2 => shape!(TABLE; [TA, TI]; true, true; seq 2, alt 2, alt 2);
    h_a2_s2_a2 => shape!(TABLE; [TA, TP]; true, true; alt 2, seq 2, alt 2);
    h_a2_s2_s2 => shape!(TABLE; [TA, TP]; true, true; alt 2, seq 2, seq 2);
    h_s1_s1_a3 => shape!(TABLE; [TA, TB, TP]; true, true; seq 1, seq 1, alt 3);
    h_s1_a1_s1_a2 => shape!(TABLE; [TA, TP]; true, true; seq 1, alt 1, seq 1, alt 2);
    h_a2_s1_s1_s1_a2 => shape!(TABLE; [TA, TP]; true, false; alt 2, seq 1, seq 1, seq 1, alt 2);
    h_s1_s1_s1_s1_a2 => shape!(TABLE; [TA, TI, TP]; true, false; seq 1, seq 1, seq 1, seq 1, alt 2);
    t_s3_a2_a2 => shape!(TABLE; [TA]; true, true; seq 3, alt 2, alt 2);
    t_a2_s2_a2_s2 => shape!(TABLE; [TA]; true, true; alt 2, seq 2, alt 2, seq 2);
    t_s2_a2_s2_a2 => shape!(TABLE; [TA]; true, true; seq 2, alt 2, seq 2, alt 2);
    t_s5_a3 => shape!(TABLE; [TA, TP]; true, true; seq 5, alt 3);
    t_s3_s2_a3 => shape!(TABLE; [TA, TP]; true, false; seq 3, seq 2, alt 3);
    t_a3_s2_a2 => shape!(TABLE; [TA, TB, TP]; true, false; alt 3, seq 2, alt 2);
    h_s2_a3_p => shape!(TABLE; [TA, TB, TP, TN]; true, false; seq 2, alt 3);
    h_a3_s2_p => shape!(TABLE; [TA, TI, TP]; true, true; alt 3, seq 2);
    h_a2_a3 => shape!(TABLE; [TA, TB, TP]; true, false; alt 2, alt 3);
    h_s1_a4 => shape!(TABLE; [TA, TB, TP]; true, false; seq 1, alt 4);
    h_s2_a2_a2_p => shape!(TABLE; [TA, TP]; true, false; seq 2, alt 2, alt 2);
    t_a2_a2_a2 => shape!(TABLE; [TA, TB, TP]; true, false; alt 2, alt 2, alt 2);
    t_s2_a3_a2 => shape!(TABLE; [TA, TP]; true, false; seq 2, alt 3, alt 2);
    h_n_expr => near!(TABLE; 1, 1; "S=AB B=C|e C=2AB A=DE E=F|e F=3DE D=0|G G=6S7");
    h_n_opts => near!(TABLE; 1, 1; "S=ABCDEF5 A=0|e B=1|e C=2|e D=3|e E=4|e F=6|e");
    h_n_many => near!(TABLE; 1, 1; "S=0|1|2|3|4|5|6|A A=7|e");
    h_n_chain => near!(TABLE; 1, 1; "S=A A=B B=C C=D D=E E=F F=G G=0|1|e");
    h_n_stmts => near!(TABLE; 1, 1; "S=A|e A=BS B=C|D C=0245 D=6E7 E=F|e F=CE");
    h_n_json => near!(TABLE; 1, 1; "S=A|B|4 A=6C7 B=0C1 C=D|e D=SE E=F|e F=2SE");
    h_n_follow => near!(TABLE; 1, 1; "S=AB2 A=CD C=0|e D=EF E=1|e F=3|e B=G|e G=4B");
    h_n_deep => near!(TABLE; 1, 1; "S=A0 A=B|1 B=C C=D2 D=E|e E=F F=G|3 G=H H=I4 I=J J=K|5 K=L L=M|e M=N N=O O=P P=Q Q=R R=T T=U U=V V=6|7|e");
    h_n_end => near!(TABLE | TAIL; 1, 1; "S=A0 A=B B=C C=D D=E E=F F=G G=H H=I I=J J=K K=L L=M M=N N=O O=P P=Q Q=R R=T T=U U=V V=W W=X X=Y Y=Z Z=a a=b b=c c=d d=f f=g g=h h=i i=j j=k k=l l=m|e m=n2 n=o|1 o=7|e");
}
