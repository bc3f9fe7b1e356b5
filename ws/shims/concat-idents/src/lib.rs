//! Stand-in for the removed unstable `concat_idents!`.
use proc_macro::{Ident, Span, TokenStream, TokenTree};
fn collect(ts: TokenStream, s: &mut String, sp: &mut Option<Span>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => { s.push_str(&i.to_string()); sp.get_or_insert(i.span()); }
            TokenTree::Group(g) => collect(g.stream(), s, sp),
            _ => {}
        }
    }
}
#[proc_macro]
pub fn concat_idents(ts: TokenStream) -> TokenStream {
    let (mut s, mut sp) = (String::new(), None);
    collect(ts, &mut s, &mut sp);
    TokenTree::Ident(Ident::new(&s, sp.unwrap_or_else(Span::call_site))).into()
}
