//! C26: what is ignored or extracted between tokens does not change the tree.
use hx::grams::*;
use hx::*;
harnesses! {
    h_g1 => gaps_of!(g1::E, 4, 5, 0);
    h_g2 => gaps_of!(g2::E, 4, 5, 0);
    h_g3 => gaps_of!(g3::S, 4, 5, 0);
    h_g4 => gaps_of!(g4::S, 4, 5, 0);
    h_g5 => gaps_of!(g5::S, 4, 5, 0);
    h_g6 => gaps_of!(g6::S, 4, 5, 0);
    h_g7 => gaps_of!(g7::S, 4, 5, 0);
    h_g8 => gaps_of!(g8::S, 4, 5, 0);
    h_g9 => gaps_of!(g9::S, 4, 5, 0);
    h_g10 => gaps_of!(g10::S, 4, 5, 0);
    h_g13 => gaps_of!(g13::S, 4, 5, 0);
    h_g14 => gaps_of!(g14::S, 4, 5, 0);
    h_g15 => gaps_of!(g15::S, 4, 5, 0);
    h_g17 => gaps_of!(g17::S, 4, 5, 0);
    h_g18 => gaps_of!(g18::S, 4, 5, 0);
    h_g19 => gaps_of!(g19::S, 4, 5, 0);
    h_g20 => gaps_of!(g20::S, 4, 5, 0);
    h_g24 => gaps_of!(g24::S, 4, 5, 0);
    h_e_g1 => gaps_of!(g1::E, 3, 4, 3);
    h_e_g2 => gaps_of!(g2::E, 3, 4, 3);
    h_e_g3 => gaps_of!(g3::S, 3, 4, 3);
    h_e_g4 => gaps_of!(g4::S, 3, 4, 3);
    h_e_g5 => gaps_of!(g5::S, 3, 4, 3);
    h_e_g6 => gaps_of!(g6::S, 3, 4, 3);
    h_e_g7 => gaps_of!(g7::S, 3, 4, 3);
    h_e_g8 => gaps_of!(g8::S, 3, 4, 3);
    h_e_g9 => gaps_of!(g9::S, 3, 4, 3);
    h_e_g10 => gaps_of!(g10::S, 3, 4, 3);
    h_e_g13 => gaps_of!(g13::S, 3, 4, 3);
    h_e_g14 => gaps_of!(g14::S, 3, 4, 3);
    h_e_g15 => gaps_of!(g15::S, 3, 4, 3);
    h_e_g17 => gaps_of!(g17::S, 3, 4, 3);
    h_e_g18 => gaps_of!(g18::S, 3, 4, 3);
    h_e_g19 => gaps_of!(g19::S, 3, 4, 3);
    h_e_g20 => gaps_of!(g20::S, 3, 4, 3);
    h_e_g24 => gaps_of!(g24::S, 3, 4, 3);
}
