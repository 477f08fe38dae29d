//! Stand-in for `enumset_derive`.
use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_derive(EnumSetType, attributes(enumset))]
pub fn derive(item: TokenStream) -> TokenStream {
    let e: syn::ItemEnum = syn::parse(item).unwrap();
    let n = &e.ident;
    let vs: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    quote! {
        impl ::core::clone::Clone for #n { fn clone(&self) -> Self { *self } }
        impl ::core::marker::Copy for #n {}
        impl ::core::cmp::PartialEq for #n { fn eq(&self, o: &Self) -> bool { *self as u32 == *o as u32 } }
        impl ::core::cmp::Eq for #n {}
        impl ::enumset::EnumSetType for #n { const ALL: &'static [#n] = &[#(#n::#vs),*]; fn bit(self) -> u32 { self as u32 } }
        impl<O: Into<::enumset::EnumSet<#n>>> ::core::ops::BitOr<O> for #n { type Output = ::enumset::EnumSet<#n>; fn bitor(self, o: O) -> ::enumset::EnumSet<#n> { ::enumset::EnumSet::from(self) | o.into() } }
    }.into()
}
