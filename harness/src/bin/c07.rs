//! C07: failures are explained, and the explanations are right.
use hx::grams::*;
use hx::lang::*;
use hx::run::*;
use hx::*;
harnesses! {
    h_g1 => parse_of!(g1::E, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g2 => parse_of!(g2::E, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g3 => parse_of!(g3::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g4 => parse_of!(g4::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g5 => parse_of!(g5::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g6 => parse_of!(g6::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g7 => parse_of!(g7::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g8 => parse_of!(g8::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g9 => parse_of!(g9::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g10 => parse_of!(g10::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g11 => parse_of!(g11::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g12 => parse_of!(g12::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g13 => parse_of!(g13::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g14 => parse_of!(g14::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g15 => parse_of!(g15::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g16 => parse_of!(g16::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g17 => parse_of!(g17::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g18 => parse_of!(g18::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g19 => parse_of!(g19::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g20 => parse_of!(g20::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g21 => parse_of!(g21::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g22 => parse_of!(g22::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g23 => parse_of!(g23::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_g24 => parse_of!(g24::S, 5, 6, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_e_g1 => parse_of!(g1::E, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g2 => parse_of!(g2::E, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g3 => parse_of!(g3::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g4 => parse_of!(g4::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g5 => parse_of!(g5::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g6 => parse_of!(g6::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g7 => parse_of!(g7::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g8 => parse_of!(g8::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g9 => parse_of!(g9::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g10 => parse_of!(g10::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g11 => parse_of!(g11::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g12 => parse_of!(g12::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g13 => parse_of!(g13::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g14 => parse_of!(g14::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g15 => parse_of!(g15::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g16 => parse_of!(g16::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g17 => parse_of!(g17::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g18 => parse_of!(g18::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g19 => parse_of!(g19::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g20 => parse_of!(g20::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g21 => parse_of!(g21::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g22 => parse_of!(g22::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g23 => parse_of!(g23::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_e_g24 => parse_of!(g24::S, 3, 4, EVERYTHING, EXPLAIN | ERRORS);
    h_q_g4 => parse_of!(g4::S, 4, 5, QUOTED, EXPLAIN | ERRORS);
    h_q_g10 => parse_of!(g10::S, 4, 5, QUOTED, EXPLAIN | ERRORS);
    h_q_g11 => parse_of!(g11::S, 4, 5, QUOTED, EXPLAIN | ERRORS);
    h_q_g16 => parse_of!(g16::S, 4, 5, QUOTED, EXPLAIN | ERRORS);
    h_q_g22 => parse_of!(g22::S, 4, 5, QUOTED, EXPLAIN | ERRORS);
    h_r_g1 => nest_of!(g1::E, 40, 60, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_r_g21 => nest_of!(g21::S, 40, 60, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_r_m5 => nest_of!(m5::S, 40, 60, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_x1 => pump_of!(g1::E, 33, 65, EVERYTHING, EXPLAIN | ERRORS);
    h_p_x5 => pump_of!(g5::S, 33, 65, EVERYTHING, EXPLAIN | ERRORS);
    h_p_g1 => pump_of!(g1::E, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g2 => pump_of!(g2::E, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g3 => pump_of!(g3::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g4 => pump_of!(g4::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g5 => pump_of!(g5::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g6 => pump_of!(g6::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g7 => pump_of!(g7::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g8 => pump_of!(g8::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g9 => pump_of!(g9::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g10 => pump_of!(g10::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g11 => pump_of!(g11::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g12 => pump_of!(g12::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g13 => pump_of!(g13::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g14 => pump_of!(g14::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g15 => pump_of!(g15::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g16 => pump_of!(g16::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g17 => pump_of!(g17::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g18 => pump_of!(g18::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g19 => pump_of!(g19::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g20 => pump_of!(g20::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g21 => pump_of!(g21::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g22 => pump_of!(g22::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g23 => pump_of!(g23::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_g24 => pump_of!(g24::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_m1 => parse_of!(m1::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_m2 => parse_of!(m2::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_m3 => parse_of!(m3::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_m4 => parse_of!(m4::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_m5 => parse_of!(m5::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_m6 => parse_of!(m6::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_m7 => parse_of!(m7::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_m8 => parse_of!(m8::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_m9 => parse_of!(m9::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_m10 => parse_of!(m10::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_m11 => parse_of!(m11::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_m12 => parse_of!(m12::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_l_g7 => pump_of!(g7::S, 260, 520, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_l_g20 => pump_of!(g20::S, 260, 520, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_f_g1 => far_of!(g1::E, 3, 4, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_f_g2 => far_of!(g2::E, 3, 4, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_f_g7 => far_of!(g7::S, 3, 4, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_f_g14 => far_of!(g14::S, 3, 4, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_f_g18 => far_of!(g18::S, 3, 4, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_f_m5 => far_of!(m5::S, 3, 4, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_w1 => parse_of!(w1::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_w2 => parse_of!(w2::S, 4, 5, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_m1 => pump_of!(m1::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_m2 => pump_of!(m2::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_m5 => pump_of!(m5::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
    h_p_m12 => pump_of!(m12::S, 33, 65, TOKENS_ONLY, EXPLAIN | ERRORS);
}
