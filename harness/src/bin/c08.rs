//! C08: every token is accounted for.
use hx::grams::*;
use hx::lang::*;
use hx::run::*;
use hx::*;
harnesses! {
    h_g1 => parse_of!(g1::E, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g2 => parse_of!(g2::E, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g3 => parse_of!(g3::S, 3, 4, EVERYTHING, TOKENS | AGAIN);
    h_g4 => parse_of!(g4::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g5 => parse_of!(g5::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g6 => parse_of!(g6::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g7 => parse_of!(g7::S, 3, 4, EVERYTHING, TOKENS | AGAIN);
    h_g8 => parse_of!(g8::S, 3, 4, EVERYTHING, TOKENS | AGAIN);
    h_g9 => parse_of!(g9::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g10 => parse_of!(g10::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g11 => parse_of!(g11::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g12 => parse_of!(g12::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g13 => parse_of!(g13::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g14 => parse_of!(g14::S, 3, 4, EVERYTHING, TOKENS | AGAIN);
    h_g15 => parse_of!(g15::S, 3, 4, EVERYTHING, TOKENS | AGAIN);
    h_g16 => parse_of!(g16::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g17 => parse_of!(g17::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g18 => parse_of!(g18::S, 3, 4, EVERYTHING, TOKENS | AGAIN);
    h_g19 => parse_of!(g19::S, 3, 4, EVERYTHING, TOKENS | AGAIN);
    h_g20 => parse_of!(g20::S, 3, 4, EVERYTHING, TOKENS | AGAIN);
    h_g21 => parse_of!(g21::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g22 => parse_of!(g22::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g23 => parse_of!(g23::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_g24 => parse_of!(g24::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_q_g4 => parse_of!(g4::S, 4, 5, QUOTED, TOKENS);
    h_q_g10 => parse_of!(g10::S, 4, 5, QUOTED, TOKENS);
    h_q_g11 => parse_of!(g11::S, 4, 5, QUOTED, TOKENS);
    h_q_g16 => parse_of!(g16::S, 4, 5, QUOTED, TOKENS);
    h_q_g22 => parse_of!(g22::S, 4, 5, QUOTED, TOKENS);
    h_p_x1 => pump_of!(g1::E, 33, 65, EVERYTHING, TOKENS | AGAIN);
    h_p_x5 => pump_of!(g5::S, 33, 65, EVERYTHING, TOKENS | AGAIN);
    h_p_g1 => pump_of!(g1::E, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g2 => pump_of!(g2::E, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g3 => pump_of!(g3::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g4 => pump_of!(g4::S, 33, 65, QUOTED, TOKENS | AGAIN);
    h_p_g5 => pump_of!(g5::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g6 => pump_of!(g6::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g7 => pump_of!(g7::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g8 => pump_of!(g8::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g9 => pump_of!(g9::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g10 => pump_of!(g10::S, 33, 65, QUOTED, TOKENS | AGAIN);
    h_p_g11 => pump_of!(g11::S, 33, 65, QUOTED, TOKENS | AGAIN);
    h_p_g12 => pump_of!(g12::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g13 => pump_of!(g13::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g14 => pump_of!(g14::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g15 => pump_of!(g15::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g16 => pump_of!(g16::S, 33, 65, QUOTED, TOKENS | AGAIN);
    h_p_g17 => pump_of!(g17::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g18 => pump_of!(g18::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g19 => pump_of!(g19::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g20 => pump_of!(g20::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g21 => pump_of!(g21::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g22 => pump_of!(g22::S, 33, 65, QUOTED, TOKENS | AGAIN);
    h_p_g23 => pump_of!(g23::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_p_g24 => pump_of!(g24::S, 33, 65, TOKENS_ONLY, TOKENS | AGAIN);
    h_m1 => parse_of!(m1::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_m2 => parse_of!(m2::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_m3 => parse_of!(m3::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_m4 => parse_of!(m4::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_m5 => parse_of!(m5::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_m6 => parse_of!(m6::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_m7 => parse_of!(m7::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_m8 => parse_of!(m8::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_m9 => parse_of!(m9::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_m10 => parse_of!(m10::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_m11 => parse_of!(m11::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_m12 => parse_of!(m12::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_l_g7 => pump_of!(g7::S, 260, 520, TOKENS_ONLY, TOKENS | AGAIN);
    h_l_g20 => pump_of!(g20::S, 260, 520, TOKENS_ONLY, TOKENS | AGAIN);
    h_f_g1 => far_of!(g1::E, 3, 4, TOKENS_ONLY, TOKENS | AGAIN);
    h_f_g2 => far_of!(g2::E, 3, 4, TOKENS_ONLY, TOKENS | AGAIN);
    h_f_g7 => far_of!(g7::S, 3, 4, TOKENS_ONLY, TOKENS | AGAIN);
    h_f_g14 => far_of!(g14::S, 3, 4, TOKENS_ONLY, TOKENS | AGAIN);
    h_w1 => parse_of!(w1::S, 4, 5, EVERYTHING, TOKENS | AGAIN);
    h_p_m2 => pump_of!(m2::S, 33, 65, EVERYTHING, TOKENS | AGAIN);
    h_p_m5 => pump_of!(m5::S, 33, 65, EVERYTHING, TOKENS | AGAIN);
}
