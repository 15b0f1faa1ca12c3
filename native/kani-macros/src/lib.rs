//! Kani's attributes, for harnesses to run natively: stubs are set by patching the code of the stubbed functions
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree, Group, Delimiter};

/// functions whose results do not matter natively, or that can't be patched (for being inlined) -- real ones are used
const REAL: [&str; 6] = ["spin_loop", "yield_now", "std::fmt::format", "push_str", "as_secs_f64", "from_secs_f64"];

#[proc_macro_attribute]
pub fn proof(_args: TokenStream, item: TokenStream) -> TokenStream {
    let mut tokens: Vec<TokenTree> = item.into_iter().collect();
    let mut patches = String::new();
    // attributes
    while matches!(&tokens[0], TokenTree::Punct(p) if p.as_char() == '#') {
        let text = tokens[1].to_string().split_whitespace().collect::<String>();
        if let Some(stub) = text.strip_prefix("[kani::stub(").and_then(|s| s.strip_suffix(")]")) {
            let (original, replacement) = stub.split_once(',').expect("a stub");
            if !REAL.iter().any(|r| original.ends_with(r)) {
                let generics = if original.contains("MetricsAllocator::") { "::<{big_o_test::verif_hooks::SAVE_POINT_RING_BUFFER_SIZE}>" } else { "" };
                let method = original.replace("MetricsAllocator::", &format!("MetricsAllocator{generics}::"));
                patches += &format!("kani::patch({method} as *const (), {replacement}{generics} as *const (), \"{original}\");");
            }
        }
        tokens.drain(..2);
    }
    // body
    let body = tokens.len() - 1;
    let TokenTree::Group(group) = &tokens[body] else { panic!("a body was expected") };
    let mut new: TokenStream = patches.parse().unwrap();
    new.extend(group.stream());
    tokens[body] = TokenTree::Group(Group::new(Delimiter::Brace, new));
    let mut out: TokenStream = "pub".parse().unwrap();
    out.extend(tokens);
    out
}
