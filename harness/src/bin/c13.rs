//! C13: separated lists.
use hx::grams::*;
use hx::lang::*;
use hx::run::*;
use hx::*;
harnesses! {
    h_g1 => parse_of!(g1::E, 6, 7, TOKENS_ONLY, FULL);
    h_g6 => parse_of!(g6::S, 6, 7, TOKENS_ONLY, FULL);
    h_g13 => parse_of!(g13::S, 7, 9, TOKENS_ONLY, FULL);
    h_g14 => parse_of!(g14::S, 5, 7, TOKENS_ONLY, FULL);
    h_g17 => parse_of!(g17::S, 6, 8, TOKENS_ONLY, FULL);
    h_g18 => parse_of!(g18::S, 6, 7, TOKENS_ONLY, FULL);
    h_s1 => parse_of!(s1::S, 6, 7, TOKENS_ONLY, FULL);
    h_s2 => parse_of!(s2::S, 6, 7, TOKENS_ONLY, FULL);
    h_s3 => parse_of!(s3::S, 6, 7, TOKENS_ONLY, FULL);
    h_s4 => parse_of!(s4::S, 6, 7, TOKENS_ONLY, FULL);
    h_s5 => parse_of!(s5::S, 5, 6, TOKENS_ONLY, FULL);
    h_e_g1 => parse_of!(g1::E, 4, 5, EVERYTHING, FULL);
    h_e_g6 => parse_of!(g6::S, 4, 5, EVERYTHING, FULL);
    h_e_g13 => parse_of!(g13::S, 4, 5, EVERYTHING, FULL);
    h_e_g17 => parse_of!(g17::S, 4, 5, EVERYTHING, FULL);
    h_e_g18 => parse_of!(g18::S, 4, 5, EVERYTHING, FULL);
    h_e_s1 => parse_of!(s1::S, 4, 5, EVERYTHING, FULL);
    h_e_s2 => parse_of!(s2::S, 4, 5, EVERYTHING, FULL);
    h_e_s3 => parse_of!(s3::S, 4, 5, EVERYTHING, FULL);
    h_e_s4 => parse_of!(s4::S, 4, 5, EVERYTHING, FULL);
    h_e_s5 => parse_of!(s5::S, 4, 5, EVERYTHING, FULL);
    h_p_g1 => pump_of!(g1::E, 33, 65, TOKENS_ONLY, FULL);
    h_p_g6 => pump_of!(g6::S, 140, 300, TOKENS_ONLY, FULL);
    h_p_g13 => pump_of!(g13::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g14 => pump_of!(g14::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g17 => pump_of!(g17::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g18 => pump_of!(g18::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_s1 => pump_of!(s1::S, 140, 300, TOKENS_ONLY, FULL);
    h_p_s2 => pump_of!(s2::S, 140, 300, TOKENS_ONLY, FULL);
    h_p_s3 => pump_of!(s3::S, 140, 300, TOKENS_ONLY, FULL);
    h_p_s4 => pump_of!(s4::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_s5 => pump_of!(s5::S, 33, 65, TOKENS_ONLY, FULL);
    h_m1 => parse_of!(m1::S, 5, 6, TOKENS_ONLY, FULL);
    h_m2 => parse_of!(m2::S, 5, 6, TOKENS_ONLY, FULL);
    h_m3 => parse_of!(m3::S, 5, 6, TOKENS_ONLY, FULL);
    h_m4 => parse_of!(m4::S, 5, 6, TOKENS_ONLY, FULL);
    h_m6 => parse_of!(m6::S, 5, 6, TOKENS_ONLY, FULL);
    h_m8 => parse_of!(m8::S, 5, 6, TOKENS_ONLY, FULL);
    h_m9 => parse_of!(m9::S, 5, 6, TOKENS_ONLY, FULL);
    h_m10 => parse_of!(m10::S, 5, 6, TOKENS_ONLY, FULL);
    h_m12 => parse_of!(m12::S, 5, 6, TOKENS_ONLY, FULL);
    h_p_m1 => pump_of!(m1::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_m2 => pump_of!(m2::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_m9 => pump_of!(m9::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_m10 => pump_of!(m10::S, 33, 65, TOKENS_ONLY, FULL);
}
