//! Stand-in for `salsa-macros`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, FnArg, ItemFn, ItemStruct, Pat, ReturnType};

#[proc_macro_attribute]
pub fn db(_: TokenStream, item: TokenStream) -> TokenStream {
    if let Ok(mut i) = syn::parse::<syn::ItemImpl>(item.clone()) {
        if i.trait_.as_ref().is_some_and(|t| t.1.segments.last().unwrap().ident == "Database") {
            i.items.push(syn::parse_quote! { fn __rt(&self) -> &::salsa::Runtime { self.storage.runtime() } });
        }
        return quote!(#i).into();
    }
    item
}
fn has(attr: &TokenStream, word: &str) -> bool { attr.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == word) }

#[proc_macro_attribute]
pub fn input(attr: TokenStream, item: TokenStream) -> TokenStream {
    let s = parse_macro_input!(item as ItemStruct);
    let (name, vis, attrs) = (&s.ident, &s.vis, &s.attrs);
    let f: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    let t: Vec<_> = s.fields.iter().map(|f| f.ty.clone()).collect();
    let v: Vec<_> = s.fields.iter().map(|f| f.vis.clone()).collect();
    let set: Vec<_> = f.iter().map(|f| format_ident!("set_{}", f)).collect();
    let n: Vec<_> = (0..f.len()).collect();
    let count = f.len();
    let builder = format_ident!("__{}Builder", name);
    let debug = if has(&attr, "debug") { quote! { impl ::core::fmt::Debug for #name { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { write!(f, concat!(stringify!(#name), "({})"), self.0) } } } } else { quote!() };
    quote! {
        #(#attrs)* #[derive(Copy, Clone, PartialEq, Eq, Hash)] #vis struct #name(u32);
        #debug
        impl ::salsa::Key for #name { fn key(&self) -> u64 { self.0 as u64 } }
        impl #name {
            pub fn new<Db: ?Sized + ::salsa::Database>(db: &Db, #(#f: #t),*) -> Self { Self::builder(#(#f),*).new(db) }
            pub fn builder(#(#f: #t),*) -> #builder { #builder { durability: ::salsa::Durability::LOW, #(#f),* } }
            #(#v fn #f<Db: ?Sized + ::salsa::Database>(self, db: &Db) -> #t { db.__rt().read::<#t>(self.0, #n).clone() }
              #v fn #set<'db, Db: ?Sized + ::salsa::Database>(self, db: &'db mut Db) -> ::salsa::FieldSetter<'db, #t> { ::salsa::FieldSetter::__new(db.__rt(), self.0, #n) })*
        }
        #vis struct #builder { durability: ::salsa::Durability, #(#f: #t),* }
        impl #builder {
            pub fn durability(mut self, d: ::salsa::Durability) -> Self { self.durability = d; self }
            pub fn new<Db: ?Sized + ::salsa::Database>(self, db: &Db) -> #name { let rt = db.__rt(); let id = rt.new_input(#count); #(rt.init(id, #n, self.durability, self.#f);)* #name(id) }
        }
    }.into()
}

#[proc_macro_attribute]
pub fn interned(attr: TokenStream, item: TokenStream) -> TokenStream {
    let s = parse_macro_input!(item as ItemStruct);
    let (name, vis, attrs) = (&s.ident, &s.vis, &s.attrs);
    let f: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    let t: Vec<_> = s.fields.iter().map(|f| f.ty.clone()).collect();
    let v: Vec<_> = s.fields.iter().map(|f| f.vis.clone()).collect();
    let n: Vec<_> = (0..f.len()).map(syn::Index::from).collect();
    let tuple = quote!((#(#t,)*));
    let debug = has(&attr, "debug");
    let (gen_, def, new_lt) = if has(&attr, "no_lifetime") { (quote!(), quote!(#vis struct #name(u32, ::core::marker::PhantomData<()>);), quote!('db)) } else { (quote!(<'db>), quote!(#vis struct #name<'db>(u32, ::core::marker::PhantomData<&'db ()>);), quote!()) };
    let new_gen = if new_lt.is_empty() { quote!(<Db: ?Sized + ::salsa::Database>) } else { quote!(<'db, Db: ?Sized + ::salsa::Database>) };
    let dbg = if debug { quote! { impl #gen_ ::core::fmt::Debug for #name #gen_ { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { write!(f, concat!(stringify!(#name), "({})"), self.0) } } } } else { quote!() };
    quote! {
        #(#attrs)* #[derive(Copy, Clone, PartialEq, Eq, Hash)] #def
        #dbg
        impl #gen_ ::salsa::Key for #name #gen_ { fn key(&self) -> u64 { self.0 as u64 } }
        impl #gen_ #name #gen_ {
            fn __table() -> &'static ::salsa::Slot { static S: ::salsa::Slot = ::salsa::Slot::new(); &S }
            pub fn new #new_gen (db: &'db Db, #(#f: #t),*) -> Self { #name(db.__rt().intern::<#tuple>(Self::__table(), (#(#f,)*)), ::core::marker::PhantomData) }
            #(#v fn #f<Db: ?Sized + ::salsa::Database>(self, db: &Db) -> #t { db.__rt().interned::<#tuple>(Self::__table(), self.0).#n.clone() })*
        }
    }.into()
}

#[proc_macro_attribute]
pub fn tracked(attr: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse_macro_input!(item as ItemFn);
    let by_ref = has(&attr, "ref");
    let (attrs, vis, name, gens, inputs, output) = (&f.attrs, &f.vis, &f.sig.ident, &f.sig.generics, &f.sig.inputs, &f.sig.output);
    let ret = match output { ReturnType::Default => quote!(()), ReturnType::Type(_, t) => quote!(#t) };
    let names: Vec<_> = inputs.iter().map(|a| match a { FnArg::Typed(p) => match &*p.pat { Pat::Ident(i) => i.ident.clone(), _ => panic!("argument") }, _ => panic!("self") }).collect();
    let db = &names[0];
    let rest = &names[1..];
    let mut inner = f.clone();
    inner.sig.ident = format_ident!("__inner");
    inner.vis = syn::Visibility::Inherited;
    inner.attrs.clear();
    // the database argument needs a name for its lifetime when a reference is returned
    let has_lt = gens.lifetimes().any(|l| l.lifetime.ident == "db");
    let (ret_ty, value, params, gens2) = if by_ref {
        let mut ins = inputs.clone();
        let mut g = gens.clone();
        if !has_lt {
            g.params.insert(0, syn::parse_quote!('db));
            if let FnArg::Typed(p) = &mut ins[0] { if let syn::Type::Reference(r) = &mut *p.ty { r.lifetime = Some(syn::parse_quote!('db)); } }
        }
        (quote!(&'db #ret), quote!(__v), quote!(#ins), quote!(#g))
    } else {
        (quote!(#ret), quote!(__v.clone()), quote!(#inputs), quote!(#gens))
    };
    quote! {
        #(#attrs)* #vis fn #name #gens2 (#params) -> #ret_ty {
            #inner
            static __S: ::salsa::Slot = ::salsa::Slot::new();
            let __rt = ::salsa::Database::__rt(#db);
            let __v: &#ret = __rt.fetch(&__S, stringify!(#name), &[#(::salsa::Key::key(&#rest)),*], || __inner(#(#names.clone()),*));
            #value
        }
    }.into()
}
