//! C24: parsing again continues where the last parse stopped.
use hx::grams::*;
use hx::lang::*;
use hx::run::*;
use hx::*;
harnesses! {
    h_g1 => parse_of!(g1::E, 5, 6, TOKENS_ONLY, FULL | AGAIN);
    h_g2 => parse_of!(g2::E, 5, 6, TOKENS_ONLY, FULL | AGAIN);
    h_g4 => parse_of!(g4::S, 6, 8, TOKENS_ONLY, FULL | AGAIN);
    h_g5 => parse_of!(g5::S, 5, 6, TOKENS_ONLY, FULL | AGAIN);
    h_g6 => parse_of!(g6::S, 5, 6, TOKENS_ONLY, FULL | AGAIN);
    h_g9 => parse_of!(g9::S, 6, 8, TOKENS_ONLY, FULL | AGAIN);
    h_g10 => parse_of!(g10::S, 6, 8, TOKENS_ONLY, FULL | AGAIN);
    h_g11 => parse_of!(g11::S, 6, 8, TOKENS_ONLY, FULL | AGAIN);
    h_g16 => parse_of!(g16::S, 5, 7, TOKENS_ONLY, FULL | AGAIN);
    h_g13 => parse_of!(g13::S, 5, 7, TOKENS_ONLY, FULL | AGAIN);
    h_g18 => parse_of!(g18::S, 4, 6, TOKENS_ONLY, FULL | AGAIN);
    h_g19 => parse_of!(g19::S, 4, 5, TOKENS_ONLY, FULL | AGAIN);
    h_g3 => parse_of!(g3::S, 4, 5, TOKENS_ONLY, FULL | AGAIN);
    h_g8 => parse_of!(g8::S, 4, 6, TOKENS_ONLY, FULL | AGAIN);
    h_g24 => parse_of!(g24::S, 5, 7, TOKENS_ONLY, FULL | AGAIN);
    h_e_g1 => parse_of!(g1::E, 3, 4, EVERYTHING, FULL | AGAIN);
    h_e_g5 => parse_of!(g5::S, 3, 4, EVERYTHING, FULL | AGAIN);
    h_e_g9 => parse_of!(g9::S, 3, 4, EVERYTHING, FULL | AGAIN);
    h_e_g11 => parse_of!(g11::S, 3, 4, EVERYTHING, FULL | AGAIN);
    h_e_g16 => parse_of!(g16::S, 3, 4, EVERYTHING, FULL | AGAIN);
    h_e_g18 => parse_of!(g18::S, 3, 4, EVERYTHING, FULL | AGAIN);
    h_e_g19 => parse_of!(g19::S, 3, 4, EVERYTHING, FULL | AGAIN);
    h_e_g24 => parse_of!(g24::S, 3, 4, EVERYTHING, FULL | AGAIN);
    h_two_g1_g4 => turns_of!(g1::E, g4::S, 5, 6, TOKENS_ONLY);
    h_two_g4_g9 => turns_of!(g4::S, g9::S, 6, 8, TOKENS_ONLY);
    h_two_g5_g1 => turns_of!(g5::S, g1::E, 5, 6, TOKENS_ONLY);
    h_two_g6_g16 => turns_of!(g6::S, g16::S, 5, 6, TOKENS_ONLY);
    h_two_m5_g13 => turns_of!(m5::S, g13::S, 5, 6, TOKENS_ONLY);
    h_two_g11_g18 => turns_of!(g11::S, g18::S, 5, 6, TOKENS_ONLY);
    h_two_x => turns_of!(g16::S, g4::S, 4, 5, EVERYTHING);
    h_p_g1 => pump_of!(g1::E, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g2 => pump_of!(g2::E, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g4 => pump_of!(g4::S, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g5 => pump_of!(g5::S, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g6 => pump_of!(g6::S, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g9 => pump_of!(g9::S, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g10 => pump_of!(g10::S, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g11 => pump_of!(g11::S, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g16 => pump_of!(g16::S, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g13 => pump_of!(g13::S, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g18 => pump_of!(g18::S, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g19 => pump_of!(g19::S, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g3 => pump_of!(g3::S, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g8 => pump_of!(g8::S, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_p_g24 => pump_of!(g24::S, 33, 65, TOKENS_ONLY, FULL | AGAIN);
    h_m2 => parse_of!(m2::S, 4, 5, TOKENS_ONLY, FULL | AGAIN);
    h_m5 => parse_of!(m5::S, 4, 5, TOKENS_ONLY, FULL | AGAIN);
    h_m8 => parse_of!(m8::S, 4, 5, TOKENS_ONLY, FULL | AGAIN);
    h_m12 => parse_of!(m12::S, 4, 5, TOKENS_ONLY, FULL | AGAIN);
    h_l_g20 => pump_of!(g20::S, 260, 520, TOKENS_ONLY, FULL | AGAIN);
    h_f_g2 => far_of!(g2::E, 3, 4, TOKENS_ONLY, FULL | AGAIN);
    h_f_g7 => far_of!(g7::S, 3, 4, TOKENS_ONLY, FULL | AGAIN);
    h_w1 => parse_of!(w1::S, 4, 5, TOKENS_ONLY, FULL | AGAIN);
}
