//! C16: a missing literal is inserted exactly when what follows can follow.
use hx::grams::*;
use hx::lang::*;
use hx::run::source;
use hx::stream::*;
use hx::tree::G;
use hx::*;

/// Skip `before` tokens, ask for a literal, then for another one.
fn lit<const N: usize>(alpha: &[u8], before: usize, again: bool) {
    let mut buf = [0u8; N];
    let len = source::<N>(alpha, 0, &mut buf);
    let text = unsafe { std::str::from_utf8_unchecked(&buf[..len]) };
    let g = G::of::<g11::S>();
    let mut st = St::new(text, &g.0);
    for _ in 0..sym::pick(before as u8 + 1) {
        st.consume();
    }
    st.ask_lit(sym::pick(6), sym::pick(64));
    if again {
        let f = [0b100000, 0b000011, 0b111111][sym::pick(3)];
        st.ask_lit(sym::pick(3), f);
    }
    st.finish();
    sym::cover(1);
}
harnesses! {
    h_tokens => if sym::tier() == 0 { lit::<3>(TOKENS_ONLY, 2, false) } else { lit::<4>(TOKENS_ONLY, 3, false) };
    h_everything => if sym::tier() == 0 { lit::<3>(EVERYTHING, 1, false) } else { lit::<4>(EVERYTHING, 2, false) };
    h_quoted => if sym::tier() == 0 { lit::<3>(QUOTED, 1, false) } else { lit::<4>(QUOTED, 2, false) };
    h_twice => if sym::tier() == 0 { lit::<2>(TOKENS_ONLY, 0, true) } else { lit::<3>(QUOTED, 1, true) };
}
