//! C15: loops to the end of the input.
use hx::grams::*;
use hx::lang::*;
use hx::run::*;
use hx::*;
harnesses! {
    h_g3 => parse_of!(g3::S, 5, 6, TOKENS_ONLY, FULL);
    h_g15 => parse_of!(g15::S, 4, 5, TOKENS_ONLY, FULL);
    h_k1 => parse_of!(k1::S, 5, 6, TOKENS_ONLY, FULL);
    h_k2 => parse_of!(k2::S, 5, 6, TOKENS_ONLY, FULL);
    h_k3 => parse_of!(k3::S, 5, 6, TOKENS_ONLY, FULL);
    h_k4 => parse_of!(k4::S, 5, 6, TOKENS_ONLY, FULL);
    h_e_g3 => parse_of!(g3::S, 3, 4, EVERYTHING, FULL);
    h_e_g15 => parse_of!(g15::S, 3, 4, EVERYTHING, FULL);
    h_e_k1 => parse_of!(k1::S, 3, 4, EVERYTHING, FULL);
    h_e_k2 => parse_of!(k2::S, 3, 4, EVERYTHING, FULL);
    h_e_k3 => parse_of!(k3::S, 3, 4, EVERYTHING, FULL);
    h_e_k4 => parse_of!(k4::S, 3, 4, EVERYTHING, FULL);
    h_p_g3 => pump_of!(g3::S, 140, 300, TOKENS_ONLY, FULL);
    h_p_g15 => pump_of!(g15::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_k1 => pump_of!(k1::S, 140, 300, TOKENS_ONLY, FULL);
    h_p_k2 => pump_of!(k2::S, 140, 300, TOKENS_ONLY, FULL);
    h_p_k3 => pump_of!(k3::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_k4 => pump_of!(k4::S, 33, 65, TOKENS_ONLY, FULL);
    h_m6 => parse_of!(m6::S, 5, 6, TOKENS_ONLY, FULL);
    h_m12 => parse_of!(m12::S, 5, 6, TOKENS_ONLY, FULL);
    h_p_m6 => pump_of!(m6::S, 33, 65, TOKENS_ONLY, FULL);
    h_p_m12 => pump_of!(m12::S, 33, 65, TOKENS_ONLY, FULL);
}
