use proc_macro::TokenStream;
#[proc_macro_derive(GetSize, attributes(get_size))]
pub fn derive(t: TokenStream) -> TokenStream {
    let d: syn::DeriveInput = syn::parse(t).unwrap();
    let (n, (i, ty, w)) = (&d.ident, d.generics.split_for_impl());
    quote::quote! { impl #i ::get_size::GetSize for #n #ty #w {} }.into()
}
