//! C23: every history of operations on the parser's stream of tokens.
use hx::grams::*;
use hx::lang::*;
use hx::run::source;
use hx::stream::*;
use hx::tree::G;
use hx::*;

fn history<const N: usize>(alpha: &[u8], ops: usize) {
    let mut buf = [0u8; N];
    let len = source::<N>(alpha, 0, &mut buf);
    let text = unsafe { std::str::from_utf8_unchecked(&buf[..len]) };
    let g = G::of::<g11::S>();
    let mut st = St::new(text, &g.0);
    for _ in 0..ops {
        match sym::pick(9) {
            0 => st.peek(),
            1 => st.peek_src(),
            2 => st.consume(),
            3 => st.spans(),
            n @ 4..=5 => st.ask(n - 4),
            6 => st.ask_lit(0, 0b100001),
            7 => st.ask_lit(2, 0b001000),
            _ => st.ask(2),
        }
    }
    st.finish();
    sym::cover(1);
}
harnesses! {
    h_tokens => if sym::tier() == 0 { history::<3>(TOKENS_ONLY, 3) } else { history::<3>(TOKENS_ONLY, 4) };
    h_everything => if sym::tier() == 0 { history::<3>(EVERYTHING, 3) } else { history::<3>(EVERYTHING, 4) };
    h_long => if sym::tier() == 0 { history::<4>(b"a #?", 4) } else { history::<5>(b"a #?", 5) };
}
