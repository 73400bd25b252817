//! C12: lists.
use hx::grams::*;
use hx::lang::*;
use hx::run::*;
use hx::*;
harnesses! {
    h_g5 => parse_of!(g5::S, 6, 8, TOKENS_ONLY, FULL);
    h_g16 => parse_of!(g16::S, 7, 9, TOKENS_ONLY, FULL);
    h_g8 => parse_of!(g8::S, 6, 7, TOKENS_ONLY, FULL);
    h_g24 => parse_of!(g24::S, 6, 8, TOKENS_ONLY, FULL);
    h_l1 => parse_of!(l1::S, 6, 7, TOKENS_ONLY, FULL);
    h_l2 => parse_of!(l2::S, 6, 7, TOKENS_ONLY, FULL);
    h_l3 => parse_of!(l3::S, 6, 7, TOKENS_ONLY, FULL);
    h_e_g5 => parse_of!(g5::S, 4, 5, EVERYTHING, FULL);
    h_e_g16 => parse_of!(g16::S, 4, 5, EVERYTHING, FULL);
    h_e_g8 => parse_of!(g8::S, 4, 5, EVERYTHING, FULL);
    h_e_l1 => parse_of!(l1::S, 4, 5, EVERYTHING, FULL);
    h_e_l2 => parse_of!(l2::S, 4, 5, EVERYTHING, FULL);
    h_e_l3 => parse_of!(l3::S, 4, 5, EVERYTHING, FULL);
    h_p_g5 => pump_of!(g5::S, 140, 300, TOKENS_ONLY, FULL);
    h_p_g16 => pump_of!(g16::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g8 => pump_of!(g8::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_g24 => pump_of!(g24::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_l1 => pump_of!(l1::S, 140, 300, TOKENS_ONLY, FULL);
    h_p_l2 => pump_of!(l2::S, 140, 300, TOKENS_ONLY, FULL);
    h_p_l3 => pump_of!(l3::S, 140, 300, TOKENS_ONLY, FULL);
    h_m3 => parse_of!(m3::S, 5, 6, TOKENS_ONLY, FULL);
    h_m4 => parse_of!(m4::S, 5, 6, TOKENS_ONLY, FULL);
    h_m11 => parse_of!(m11::S, 5, 6, TOKENS_ONLY, FULL);
}
