//! C11: optional nodes.
use hx::grams::*;
use hx::lang::*;
use hx::run::*;
use hx::*;
harnesses! {
    h_g4 => parse_of!(g4::S, 8, 10, TOKENS_ONLY, FULL);
    h_g10 => parse_of!(g10::S, 8, 10, TOKENS_ONLY, FULL);
    h_g12 => parse_of!(g12::S, 9, 11, TOKENS_ONLY, FULL);
    h_g17 => parse_of!(g17::S, 6, 7, TOKENS_ONLY, FULL);
    h_g9 => parse_of!(g9::S, 8, 9, TOKENS_ONLY, FULL);
    h_g22 => parse_of!(g22::S, 6, 7, TOKENS_ONLY, FULL);
    h_g23 => parse_of!(g23::S, 7, 9, TOKENS_ONLY, FULL);
    h_g21 => parse_of!(g21::S, 9, 11, TOKENS_ONLY, FULL);
    h_o1 => parse_of!(o1::S, 7, 8, TOKENS_ONLY, FULL);
    h_o2 => parse_of!(o2::S, 7, 8, TOKENS_ONLY, FULL);
    h_o3 => parse_of!(o3::S, 7, 8, TOKENS_ONLY, FULL);
    h_e_g4 => parse_of!(g4::S, 4, 5, EVERYTHING, FULL);
    h_e_g10 => parse_of!(g10::S, 4, 5, EVERYTHING, FULL);
    h_e_g12 => parse_of!(g12::S, 4, 5, EVERYTHING, FULL);
    h_e_g17 => parse_of!(g17::S, 4, 5, EVERYTHING, FULL);
    h_e_g9 => parse_of!(g9::S, 4, 5, EVERYTHING, FULL);
    h_e_o1 => parse_of!(o1::S, 4, 5, EVERYTHING, FULL);
    h_e_o2 => parse_of!(o2::S, 4, 5, EVERYTHING, FULL);
    h_e_o3 => parse_of!(o3::S, 4, 5, EVERYTHING, FULL);
    h_p_g4 => pump_of!(g4::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g10 => pump_of!(g10::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g12 => pump_of!(g12::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g17 => pump_of!(g17::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g9 => pump_of!(g9::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g22 => pump_of!(g22::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g23 => pump_of!(g23::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g21 => pump_of!(g21::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_o1 => pump_of!(o1::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_o2 => pump_of!(o2::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_o3 => pump_of!(o3::S, 33, 65, TOKENS_ONLY, FULL);
    h_m5 => parse_of!(m5::S, 5, 6, TOKENS_ONLY, FULL);
    h_l_g7 => pump_of!(g7::S, 260, 520, TOKENS_ONLY, FULL);
    h_l_g20 => pump_of!(g20::S, 260, 520, TOKENS_ONLY, FULL);
    h_f_g1 => far_of!(g1::E, 3, 4, TOKENS_ONLY, FULL);
    h_w1 => parse_of!(w1::S, 5, 5, TOKENS_ONLY, FULL);
    h_w2 => parse_of!(w2::S, 5, 5, TOKENS_ONLY, FULL);
    h_m7 => parse_of!(m7::S, 5, 6, TOKENS_ONLY, FULL);
    h_m11 => parse_of!(m11::S, 5, 6, TOKENS_ONLY, FULL);
}
