//! Procedural macros of the mini-FRAME shim: codec derives, NoBound derives and the
//! `#[frame_support::pallet]` attribute.  They generate the *plumbing* that FRAME generates around
//! the hand-written code of a pallet; every hand-written item of the pallet passes through
//! unchanged (only `pallet::*` helper attributes and genesis-serde attributes are removed).
extern crate proc_macro;
use proc_macro::TokenStream;
use proc_macro2::{Span, TokenStream as TS};
use quote::{format_ident, quote, ToTokens};
use syn::*;

mod pallet;

#[proc_macro_attribute]
pub fn pallet(_attr: TokenStream, item: TokenStream) -> TokenStream {
    pallet::expand(parse_macro_input!(item as ItemMod)).into()
}

fn has_attr_arg(attrs: &[Attribute], path: &str, arg: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident(path) && a.to_token_stream().to_string().contains(arg))
}
fn codec_index(attrs: &[Attribute]) -> Option<Expr> {
    for a in attrs {
        if a.path().is_ident("codec") {
            if let Meta::List(l) = &a.meta {
                if let Ok(nv) = syn::parse2::<MetaNameValue>(l.tokens.clone()) {
                    if nv.path.is_ident("index") { return Some(nv.value); }
                }
            }
        }
    }
    None
}

/// generics with every type parameter bounded by the given traits (except when `nobound`)
fn bounded(g: &Generics, data: &Data, bounds: &[TS], nobound: bool) -> Generics {
    let mut g = g.clone();
    if nobound {
        g.make_where_clause();
        return g;
    }
    // bound field types that mention a type parameter, as parity-scale-codec does
    let params: Vec<Ident> = g.type_params().map(|p| p.ident.clone()).collect();
    let wc = g.make_where_clause();
    let mut push = |ty: &Type| {
        if matches!(ty, Type::Path(p) if p.path.segments.last().map(|s| s.ident == "PhantomData").unwrap_or(false)) { return; }
        let s = ty.to_token_stream();
        if mentions(s, &params) {
            for b in bounds {
                let p: WherePredicate = parse_quote!(#ty: #b);
                wc.predicates.push(p);
            }
        }
    };
    match data {
        Data::Struct(d) => d.fields.iter().for_each(|f| push(&f.ty)),
        Data::Enum(d) => d.variants.iter().for_each(|v| v.fields.iter().for_each(|f| push(&f.ty))),
        _ => {}
    }
    g
}
fn mentions(ts: TS, params: &[Ident]) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => params.iter().any(|p| *p == i),
        proc_macro2::TokenTree::Group(g) => mentions(g.stream(), params),
        _ => false,
    })
}

fn destructure(fields: &Fields) -> (TS, Vec<Ident>) {
    match fields {
        Fields::Named(n) => {
            let ids: Vec<Ident> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
            let vs: Vec<Ident> = ids.iter().map(|i| format_ident!("__f_{}", i)).collect();
            (quote!({ #(#ids: #vs),* }), vs)
        }
        Fields::Unnamed(u) => {
            let vs: Vec<Ident> = (0..u.unnamed.len()).map(|i| format_ident!("__f_{}", i)).collect();
            (quote!(( #(#vs),* )), vs)
        }
        Fields::Unit => (quote!(), vec![]),
    }
}
fn construct(fields: &Fields, mut f: impl FnMut(&Field) -> TS) -> TS {
    match fields {
        Fields::Named(n) => {
            let it = n.named.iter().map(|x| { let i = &x.ident; let e = f(x); quote!(#i: #e) });
            quote!({ #(#it),* })
        }
        Fields::Unnamed(u) => { let it = u.unnamed.iter().map(|x| f(x)); quote!(( #(#it),* )) }
        Fields::Unit => quote!(),
    }
}

#[proc_macro_derive(Encode, attributes(codec))]
pub fn derive_encode(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let g = bounded(&d.generics, &d.data, &[quote!(::mf::codec::Encode)], false);
    let (ig, _, wc) = g.split_for_impl();
    let (_, tg, _) = d.generics.split_for_impl();
    let name = &d.ident;
    let enc = |f: &Field, v: &Ident| {
        if has_attr_arg(&f.attrs, "codec", "skip") { quote!() }
        else if has_attr_arg(&f.attrs, "codec", "compact") { quote!(::mf::codec::CompactEnc::compact_encode_to(#v, __o);) }
        else { quote!(::mf::codec::Encode::encode_to(#v, __o);) }
    };
    let body = match &d.data {
        Data::Struct(s) => {
            let (pat, vs) = destructure(&s.fields);
            let st = s.fields.iter().zip(&vs).map(|(f, v)| enc(f, v));
            quote!(let #name #pat = self; #(#st)*)
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().map(|(ix, v)| {
                let vn = &v.ident;
                let (pat, vs) = destructure(&v.fields);
                let st = v.fields.iter().zip(&vs).map(|(f, v)| enc(f, v));
                let idx = codec_index(&v.attrs).map(|e| quote!((#e) as u8)).unwrap_or_else(|| match &v.discriminant { Some((_, e)) => quote!((#e) as u8), None => { let ix = ix as u8; quote!(#ix) } });
                quote!(#name::#vn #pat => { ::mf::codec::Encode::encode_to(&(#idx), __o); #(#st)* })
            });
            let fallback = if e.variants.is_empty() { quote!(_ => {}) } else { quote!() };
            quote!(match self { #(#arms)* #fallback })
        }
        _ => panic!(),
    };
    quote!(
        #[automatically_derived]
        #[allow(unused_variables, unused_mut, non_snake_case)]
        impl #ig ::mf::codec::Encode for #name #tg #wc {
            fn encode_to(&self, __o: &mut ::mf::sp_std::vec::Vec<u8>) { #body }
        }
        #[automatically_derived]
        impl #ig ::mf::codec::EncodeLike for #name #tg #wc {}
    ).into()
}

#[proc_macro_derive(Decode, attributes(codec))]
pub fn derive_decode(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let g = bounded(&d.generics, &d.data, &[quote!(::mf::codec::Decode)], false);
    let (ig, _, wc) = g.split_for_impl();
    let (_, tg, _) = d.generics.split_for_impl();
    let name = &d.ident;
    let dec = |f: &Field| {
        if has_attr_arg(&f.attrs, "codec", "skip") { quote!(Default::default()) }
        else if has_attr_arg(&f.attrs, "codec", "compact") { quote!(::mf::codec::CompactEnc::compact_decode(__i)?) }
        else { quote!(::mf::codec::Decode::decode(__i)?) }
    };
    let body = match &d.data {
        Data::Struct(s) => { let c = construct(&s.fields, dec); quote!(Ok(#name #c)) }
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().filter(|(_, v)| !v.ident.to_string().starts_with("__")).map(|(ix, v)| {
                let vn = &v.ident;
                let c = construct(&v.fields, dec);
                let idx = codec_index(&v.attrs).map(|e| quote!((#e) as u8)).unwrap_or_else(|| match &v.discriminant { Some((_, e)) => quote!((#e) as u8), None => { let ix = ix as u8; quote!(#ix) } });
                quote!(x if x == #idx => Ok(#name::#vn #c),)
            });
            quote!(match __i.read_byte()? { #(#arms)* _ => Err(::mf::codec::Error::from("invalid variant")) })
        }
        _ => panic!(),
    };
    quote!(
        #[automatically_derived]
        #[allow(unused_variables, unused_mut, non_snake_case)]
        impl #ig ::mf::codec::Decode for #name #tg #wc {
            fn decode<__I: ::mf::codec::Input>(__i: &mut __I) -> ::core::result::Result<Self, ::mf::codec::Error> { #body }
        }
    ).into()
}

/// nondeterministic value generator (field-wise), emitted with `TypeInfo`
fn nd_impl(d: &DeriveInput, nobound: bool) -> TS {
    let g = bounded(&d.generics, &d.data, &[quote!(::mf::nd::Nd)], nobound);
    let (ig, _, wc) = g.split_for_impl();
    let (_, tg, _) = d.generics.split_for_impl();
    let name = &d.ident;
    let params: Vec<Ident> = d.generics.type_params().map(|p| p.ident.clone()).collect();
    let phantom = |f: &Field| f.ty.to_token_stream().to_string().contains("PhantomData");
    let mk = |f: &Field| { let t = &f.ty; if phantom(f) { quote!(::core::marker::PhantomData) } else if params.len() > 0 { quote!(<#t as ::mf::nd::Nd>::nd()) } else { quote!({ #[allow(unused_imports)] use ::mf::nd::{ViaNd, ViaDecode}; (&&::mf::nd::W::<#t>(::core::marker::PhantomData)).make() }) } };
    let cp = |f: &Field, v: &Ident| { let t = &f.ty; if phantom(f) { quote!(::core::marker::PhantomData) } else if params.len() > 0 { quote!(<#t as ::mf::nd::Nd>::dup(#v)) } else { quote!({ #[allow(unused_imports)] use ::mf::nd::{ViaNd, ViaDecode}; (&&::mf::nd::W::<#t>(::core::marker::PhantomData)).copy(#v) }) } };
    let dup_arm = |path: TS, fields: &Fields| { let (pat, vs) = destructure(fields); let mut it = vs.iter(); let c = construct(fields, |f| cp(f, it.next().unwrap())); quote!(#path #pat => #path #c,) };
    let (body, dup) = match &d.data {
        Data::Struct(s) => { let c = construct(&s.fields, mk); let a = dup_arm(quote!(#name), &s.fields); (quote!(#name #c), quote!(match self { #a })) }
        Data::Enum(e) => {
            let vs: Vec<_> = e.variants.iter().filter(|v| !v.ident.to_string().starts_with("__")).collect();
            let n = vs.len();
            let arms = vs.iter().enumerate().map(|(ix, v)| {
                let vn = &v.ident;
                let c = construct(&v.fields, mk);
                if ix + 1 == n { quote!(_ => #name::#vn #c,) } else { let ix = ix as u8; quote!(#ix => #name::#vn #c,) }
            });
            let b = if n == 0 { quote!(unreachable!()) } else { let n8 = n as u8; quote!(match ::mf::nd::below_u8(#n8) { #(#arms)* }) };
            let das = vs.iter().map(|v| { let vn = &v.ident; dup_arm(quote!(#name::#vn), &v.fields) });
            (b, quote!(match self { #(#das)* _ => unreachable!() }))
        }
        _ => panic!(),
    };
    quote!(
        #[automatically_derived]
        #[allow(unused_variables, non_snake_case, unreachable_code, unreachable_patterns)]
        impl #ig ::mf::nd::Nd for #name #tg #wc { fn nd() -> Self { #body } fn dup(&self) -> Self { #dup } }
    )
}

#[proc_macro_derive(MaxEncodedLen, attributes(codec))]
pub fn derive_mel(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let g = bounded(&d.generics, &d.data, &[quote!(::mf::codec::MaxEncodedLen)], false);
    let (ig, _, wc) = g.split_for_impl();
    let (_, tg, _) = d.generics.split_for_impl();
    let name = &d.ident;
    let body = match &d.data {
        Data::Struct(s) => { let t = s.fields.iter().map(|f| &f.ty); quote!(0usize #(.saturating_add(<#t as ::mf::codec::MaxEncodedLen>::max_encoded_len()))*) }
        Data::Enum(e) => { let vs = e.variants.iter().map(|v| { let t = v.fields.iter().map(|f| &f.ty); quote!(0usize #(.saturating_add(<#t as ::mf::codec::MaxEncodedLen>::max_encoded_len()))*) }); quote!({ let mut m = 0usize; #( m = m.max(#vs); )* m.saturating_add(1) }) }
        _ => panic!(),
    };
    quote!(impl #ig ::mf::codec::MaxEncodedLen for #name #tg #wc { fn max_encoded_len() -> usize { #body } }).into()
}

#[proc_macro_derive(TypeInfo, attributes(scale_info))]
pub fn derive_typeinfo(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let name = &d.ident;
    let nd = nd_impl(&d, false);
    quote!(#nd impl #ig ::mf::scale_info::TypeInfo for #name #tg #wc { type Identity = Self; fn type_info() -> ::mf::scale_info::Type { ::mf::scale_info::Type::opaque() } }).into()
}

fn nb(i: TokenStream, what: &str, nobound: bool) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    nb_impl(&d, what, nobound).into()
}
pub(crate) fn nb_impl(d: &DeriveInput, what: &str, nobound: bool) -> TS {
    let tr: TS = match what { "Clone" => quote!(::core::clone::Clone), "PartialEq" => quote!(::core::cmp::PartialEq), "Eq" => quote!(::core::cmp::Eq), "Debug" => quote!(::core::fmt::Debug), _ => quote!(::core::default::Default) };
    let g = bounded(&d.generics, &d.data, &[tr.clone()], nobound);
    let (ig, _, wc) = g.split_for_impl();
    let (_, tg, _) = d.generics.split_for_impl();
    let name = &d.ident;
    let variants: Vec<(TS, &Fields)> = match &d.data {
        Data::Struct(s) => vec![(quote!(#name), &s.fields)],
        Data::Enum(e) => e.variants.iter().map(|v| { let vn = &v.ident; (quote!(#name::#vn), &v.fields) }).collect(),
        _ => panic!(),
    };
    let empty = variants.is_empty();
    let body = match what {
        "Clone" => {
            let arms = variants.iter().map(|(p, f)| { let (pat, vs) = destructure(f); let mut it = vs.iter(); let c = construct(f, |_| { let v = it.next().unwrap(); quote!(::core::clone::Clone::clone(#v)) }); quote!(#p #pat => #p #c,) });
            if empty { quote!(fn clone(&self) -> Self { unreachable!() }) } else { quote!(fn clone(&self) -> Self { match self { #(#arms)* } }) }
        }
        "PartialEq" => {
            let arms = variants.iter().map(|(p, f)| { let (pat, vs) = destructure(f); let ws: Vec<Ident> = vs.iter().map(|v| format_ident!("{}_o", v)).collect(); let pat2 = rename_pat(f, &ws); quote!((#p #pat, #p #pat2) => true #( && #vs == #ws )*,) });
            let many = if variants.len() != 1 { quote!(_ => false,) } else { quote!() };
            quote!(fn eq(&self, other: &Self) -> bool { match (self, other) { #(#arms)* #many } })
        }
        "Eq" => quote!(),
        "Debug" => quote!(fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(stringify!(#name)) }),
        _ => {
            let sel = match &d.data { Data::Enum(e) => { let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).expect("default variant"); let vn = &v.ident; let c = construct(&v.fields, |_| quote!(Default::default())); quote!(#name::#vn #c) } Data::Struct(s) => { let c = construct(&s.fields, |_| quote!(Default::default())); quote!(#name #c) } _ => panic!() };
            quote!(fn default() -> Self { #sel })
        }
    };
    quote!(#[automatically_derived] #[allow(unused_variables, unreachable_patterns, non_snake_case)] impl #ig #tr for #name #tg #wc { #body })
}
fn rename_pat(fields: &Fields, ws: &[Ident]) -> TS {
    match fields {
        Fields::Named(n) => { let ids = n.named.iter().map(|f| f.ident.clone().unwrap()); quote!({ #(#ids: #ws),* }) }
        Fields::Unnamed(_) => quote!(( #(#ws),* )),
        Fields::Unit => quote!(),
    }
}

#[proc_macro_derive(RuntimeDebug)]
pub fn d_rd(i: TokenStream) -> TokenStream { nb(i, "Debug", true) }
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn d_rdn(i: TokenStream) -> TokenStream { nb(i, "Debug", true) }
#[proc_macro_derive(DebugNoBound)]
pub fn d_dn(i: TokenStream) -> TokenStream { nb(i, "Debug", true) }
#[proc_macro_derive(CloneNoBound)]
pub fn d_cn(i: TokenStream) -> TokenStream { nb(i, "Clone", true) }
#[proc_macro_derive(PartialEqNoBound)]
pub fn d_pn(i: TokenStream) -> TokenStream { nb(i, "PartialEq", true) }
#[proc_macro_derive(EqNoBound)]
pub fn d_en(i: TokenStream) -> TokenStream { nb(i, "Eq", true) }
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn d_den(i: TokenStream) -> TokenStream { nb(i, "Default", true) }

/// `#[bitflags] #[repr(uN)] enum` of enumflags2 (automatic discriminants 1 << i)
#[proc_macro_attribute]
pub fn bitflags(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut e = parse_macro_input!(item as ItemEnum);
    let mut repr: Ident = Ident::new("u8", Span::call_site());
    for a in &e.attrs { if a.path().is_ident("repr") { if let Ok(i) = a.parse_args::<Ident>() { repr = i; } } }
    let name = e.ident.clone();
    let mut next: u64 = 1;
    let mut vs = vec![];
    for v in e.variants.iter_mut() {
        if v.discriminant.is_none() {
            let l = LitInt::new(&format!("{}", next), Span::call_site());
            v.discriminant = Some((Default::default(), parse_quote!(#l)));
        }
        next <<= 1;
        vs.push(v.ident.clone());
    }
    let n = vs.len();
    quote!(
        #e
        impl ::mf::enumflags2::BitFlag for #name {
            type Numeric = #repr;
            const ALL_VARIANTS: &'static [#name] = &[ #(#name::#vs),* ];
            const COUNT: usize = #n;
            fn bit(self) -> u64 { self as #repr as u64 }
        }
    ).into()
}

/// serde derives are dropped (the pallets' node-side JSON views are not under verification)
#[proc_macro_derive(Serialize, attributes(serde))]
pub fn d_ser(_i: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(Deserialize, attributes(serde))]
pub fn d_de(_i: TokenStream) -> TokenStream { TokenStream::new() }
