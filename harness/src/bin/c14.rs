//! C14: recovery to a synchronisation point.
use hx::grams::*;
use hx::lang::*;
use hx::run::*;
use hx::*;
harnesses! {
    h_g7 => parse_of!(g7::S, 5, 6, TOKENS_ONLY, FULL);
    h_g19 => parse_of!(g19::S, 5, 6, TOKENS_ONLY, FULL);
    h_g20 => parse_of!(g20::S, 5, 6, TOKENS_ONLY, FULL);
    h_r1 => parse_of!(r1::S, 5, 7, TOKENS_ONLY, FULL);
    h_r2 => parse_of!(r2::S, 5, 7, TOKENS_ONLY, FULL);
    h_r3 => parse_of!(r3::S, 5, 7, TOKENS_ONLY, FULL);
    h_r4 => parse_of!(r4::S, 5, 6, TOKENS_ONLY, FULL);
    h_e_g7 => parse_of!(g7::S, 3, 4, EVERYTHING, FULL);
    h_e_g19 => parse_of!(g19::S, 3, 4, EVERYTHING, FULL);
    h_e_g20 => parse_of!(g20::S, 3, 4, EVERYTHING, FULL);
    h_e_r1 => parse_of!(r1::S, 3, 4, EVERYTHING, FULL);
    h_e_r2 => parse_of!(r2::S, 3, 4, EVERYTHING, FULL);
    h_e_r3 => parse_of!(r3::S, 3, 4, EVERYTHING, FULL);
    h_e_r4 => parse_of!(r4::S, 3, 4, EVERYTHING, FULL);
    h_r_g1 => nest_of!(g1::E, 40, 60, TOKENS_ONLY, FULL);
    h_r_g21 => nest_of!(g21::S, 40, 60, TOKENS_ONLY, FULL);
    h_r_m5 => nest_of!(m5::S, 40, 60, TOKENS_ONLY, FULL);
    h_p_g7 => pump_of!(g7::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g19 => pump_of!(g19::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g20 => pump_of!(g20::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_r1 => pump_of!(r1::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_r2 => pump_of!(r2::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_r3 => pump_of!(r3::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_r4 => pump_of!(r4::S, 33, 65, TOKENS_ONLY, FULL);
    h_m1 => parse_of!(m1::S, 5, 6, TOKENS_ONLY, FULL);
    h_m2 => parse_of!(m2::S, 5, 6, TOKENS_ONLY, FULL);
    h_m4 => parse_of!(m4::S, 5, 6, TOKENS_ONLY, FULL);
    h_m5 => parse_of!(m5::S, 5, 6, TOKENS_ONLY, FULL);
    h_m7 => parse_of!(m7::S, 5, 6, TOKENS_ONLY, FULL);
    h_m8 => parse_of!(m8::S, 5, 6, TOKENS_ONLY, FULL);
    h_m12 => parse_of!(m12::S, 5, 6, TOKENS_ONLY, FULL);
    h_p_m1 => pump_of!(m1::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_m5 => pump_of!(m5::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_m12 => pump_of!(m12::S, 33, 65, TOKENS_ONLY, FULL);
    h_l_g7 => pump_of!(g7::S, 260, 520, TOKENS_ONLY, FULL);
    h_l_g20 => pump_of!(g20::S, 260, 520, TOKENS_ONLY, FULL);
}
