use super::*;
use syn::punctuated::Punctuated;
use syn::visit_mut::VisitMut;

fn is_pallet_attr(a: &Attribute) -> bool {
    a.path().segments.first().map(|s| s.ident == "pallet").unwrap_or(false)
}
fn find<'a>(attrs: &'a [Attribute], n: &str) -> Option<&'a Attribute> {
    attrs.iter().find(|a| is_pallet_attr(a) && a.path().segments.len() == 2 && a.path().segments[1].ident == n)
}
/// removes `pallet::*` helper attributes anywhere below an item
struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, attrs: &mut Vec<Attribute>) {
        attrs.retain(|a| !is_pallet_attr(a));
    }
}
fn strip_item(i: &mut Item) {
    struct V;
    impl VisitMut for V {
        fn visit_attributes_mut(&mut self, attrs: &mut Vec<Attribute>) { attrs.retain(|a| !is_pallet_attr(a)); }
    }
    V.visit_item_mut(i);
}
fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Trait(x) => &x.attrs, Item::Struct(x) => &x.attrs, Item::Enum(x) => &x.attrs, Item::Type(x) => &x.attrs,
        Item::Impl(x) => &x.attrs, Item::Fn(x) => &x.attrs, _ => &[],
    }
}

struct StorageInfo { name: Ident, inst: Ident, kind: String, args: Vec<Type>, vis: Visibility, getter: Option<(Visibility, Ident)> }

pub fn expand(m: ItemMod) -> TS {
    let mod_name = m.ident.clone();
    let vis = m.vis.clone();
    let mattrs: Vec<_> = m.attrs.iter().filter(|a| !is_pallet_attr(a)).cloned().collect();
    let items = m.content.expect("inline pallet module").1;
    let mut out: Vec<TS> = vec![];
    let mut deposit: Option<(Visibility, Ident)> = None;
    let mut storages: Vec<StorageInfo> = vec![];
    let mut call_impl: Option<ItemImpl> = None;
    let mut event_generics = false;
    let mut has_event = false;

    for mut it in items {
        let attrs = item_attrs(&it).to_vec();
        if find(&attrs, "pallet").is_some() {
            if let Item::Struct(s) = &it {
                let v = &s.vis;
                out.push(quote!(
                    #v struct Pallet<T>(pub(crate) ::core::marker::PhantomData<T>);
                    impl<T> Clone for Pallet<T> { fn clone(&self) -> Self { Pallet(::core::marker::PhantomData) } }
                    impl<T> PartialEq for Pallet<T> { fn eq(&self, _: &Self) -> bool { true } }
                    impl<T> Eq for Pallet<T> {}
                    impl<T> ::core::fmt::Debug for Pallet<T> { fn fmt(&self, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { Ok(()) } }
                ));
                continue;
            }
        }
        if find(&attrs, "storage").is_some() {
            if let Item::Type(t) = &it {
                let getter = find(&attrs, "getter").map(|a| {
                    let ts: TS = a.parse_args().unwrap();
                    let f: GetterFn = syn::parse2(ts).unwrap();
                    (Visibility::Public(Default::default()), f.0)
                });
                let (mut t2, kind, args) = (t.clone(), String::new(), Vec::<Type>::new());
                let _ = (kind, args);
                let inst = format_ident!("__Inst{}", t.ident);
                let (kind, args) = if let Type::Path(p) = &mut *t2.ty {
                    let seg = p.path.segments.last_mut().unwrap();
                    let kind = seg.ident.to_string();
                    let mut args = vec![];
                    if let PathArguments::AngleBracketed(ab) = &mut seg.arguments {
                        if ab.args.iter().any(|a| matches!(a, GenericArgument::AssocType(_))) {
                            panic!("named storage generics not supported by the shim");
                        }
                        if let Some(GenericArgument::Type(x)) = ab.args.first_mut() { *x = parse_quote!(#inst<T>); }
                        for a in ab.args.iter() { if let GenericArgument::Type(x) = a { args.push(x.clone()); } }
                    }
                    (kind, args)
                } else { panic!() };
                t2.attrs.retain(|a| !is_pallet_attr(a));
                t2.vis = Visibility::Public(Default::default());
                let nm = t.ident.to_string();
                out.push(quote!(
                    #[doc(hidden)] pub struct #inst<T>(::core::marker::PhantomData<T>);
                    impl<T> ::mf::frame_support::storage::StorageInstance for #inst<T> {
                        const NAME: &'static str = #nm;
                        fn slot() -> *mut *mut () { static mut S: *mut () = ::core::ptr::null_mut(); ::core::ptr::addr_of_mut!(S) }
                    }
                    #[allow(type_alias_bounds)]
                    #t2
                ));
                storages.push(StorageInfo { name: t.ident.clone(), inst, kind, args, vis: t.vis.clone(), getter });
                continue;
            }
        }
        if find(&attrs, "error").is_some() {
            if let Item::Enum(e) = &mut it {
                e.attrs.retain(|a| !is_pallet_attr(a));
                let pe = e.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("PartialEq"));
                e.attrs.retain(|a| !a.path().is_ident("derive"));
                let _ = pe;
                let names: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
                let idx: Vec<u8> = (0..names.len() as u8).collect();
                let v = &e.vis; let vars = &e.variants;
                out.push(quote!(
                    #v enum Error<T> { #vars #[doc(hidden)] __Ignore(::core::marker::PhantomData<T>, ::mf::Never) }
                    impl<T> Error<T> {
                        #[doc(hidden)] pub fn __index(&self) -> u8 { match self { #(Error::#names => #idx,)* _ => unreachable!() } }
                        pub fn as_str(&self) -> &'static str { match self { #(Error::#names => stringify!(#names),)* _ => unreachable!() } }
                    }
                    impl<T> ::core::fmt::Debug for Error<T> { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.as_str()) } }
                    impl<T> PartialEq for Error<T> { fn eq(&self, o: &Self) -> bool { self.__index() == o.__index() } }
                    impl<T> Eq for Error<T> {}
                    impl<T> From<Error<T>> for &'static str { fn from(e: Error<T>) -> &'static str { e.as_str() } }
                    impl<T> From<Error<T>> for ::mf::sp_runtime::DispatchError {
                        fn from(e: Error<T>) -> Self {
                            ::mf::sp_runtime::DispatchError::Module(::mf::sp_runtime::ModuleError { index: PALLET_INDEX, error: [e.__index(), 0, 0, 0], message: Some(e.as_str()) })
                        }
                    }
                    #[doc(hidden)] pub const PALLET_INDEX: u8 = 42;
                ));
                continue;
            }
        }
        if find(&attrs, "event").is_some() {
            if let Item::Enum(e) = &mut it {
                has_event = true;
                if let Some(a) = find(&attrs, "generate_deposit") {
                    let f: GetterFnVis = a.parse_args().unwrap();
                    deposit = Some((Visibility::Public(Default::default()), f.1));
                }
                e.attrs.retain(|a| !is_pallet_attr(a));
                event_generics = !e.generics.params.is_empty();
                if event_generics {
                    e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(::core::marker::PhantomData<T>, ::mf::Never)));
                }
                let di: DeriveInput = parse_quote!(#e);
                let (c, p, q, d) = (nb_impl(&di, "Clone", true), nb_impl(&di, "PartialEq", true), nb_impl(&di, "Eq", true), nb_impl(&di, "Debug", true));
                out.push(quote!(#e #c #p #q #d));
                continue;
            }
        }
        if find(&attrs, "call").is_some() {
            if let Item::Impl(i) = it { call_impl = Some(i); continue; }
        }
        if find(&attrs, "type_value").is_some() {
            if let Item::Fn(f) = &it {
                let (n, v, b, r) = (&f.sig.ident, &f.vis, &f.block, match &f.sig.output { ReturnType::Type(_, t) => t.clone(), _ => panic!() });
                let _ = v;
                if f.sig.generics.params.is_empty() {
                    out.push(quote!(pub struct #n; impl ::mf::frame_support::traits::Get<#r> for #n { fn get() -> #r #b }));
                } else {
                    let (ig, _, _) = f.sig.generics.split_for_impl();
                    out.push(quote!(pub struct #n<T>(::core::marker::PhantomData<T>); impl #ig ::mf::frame_support::traits::Get<#r> for #n<T> { fn get() -> #r #b }));
                }
                continue;
            }
        }
        if find(&attrs, "composite_enum").is_some() {
            if let Item::Enum(e) = &mut it {
                e.attrs.retain(|a| !is_pallet_attr(a));
                out.push(quote!(#[derive(Copy, Clone, Eq, PartialEq, Debug, ::mf::Encode, ::mf::Decode, ::mf::MaxEncodedLen, ::mf::TypeInfo)] #e));
                continue;
            }
        }
        if find(&attrs, "genesis_config").is_some() {
            if let Item::Struct(s) = &mut it {
                for f in s.fields.iter_mut() { f.attrs.retain(|a| !a.path().is_ident("serde")); }
            }
        }
        // everything else: keep the hand-written item, dropping only helper attributes
        strip_item(&mut it);
        out.push(it.to_token_stream());
    }

    // getters
    for s in &storages {
        if let Some((gv, g)) = &s.getter {
            let (n, a) = (&s.name, &s.args);
            let _ = (&s.inst, &s.vis);
            let w = quote!(where T: Config);
            let f = match s.kind.as_str() {
                "StorageValue" => { let v = &a[1]; let q = query(a.get(2), v); quote!(#gv fn #g() -> #q #w { <#n<T>>::get() }) }
                "StorageMap" | "CountedStorageMap" => { let (k, v) = (&a[2], &a[3]); let q = query(a.get(4), v); quote!(#gv fn #g<__A: ::mf::KeyArg<#k>>(k: __A) -> #q #w { <#n<T>>::get(k) }) }
                "StorageDoubleMap" => { let (k1, k2, v) = (&a[2], &a[4], &a[5]); let q = query(a.get(6), v); quote!(#gv fn #g<__A: ::mf::KeyArg<#k1>, __B: ::mf::KeyArg<#k2>>(k1: __A, k2: __B) -> #q #w { <#n<T>>::get(k1, k2) }) }
                "StorageNMap" => { let (k, v) = (&a[1], &a[2]); let q = query(a.get(3), v); quote!(#gv fn #g(k: <#k as ::mf::frame_support::storage::KeyGen>::Key) -> #q #w { <#n<T>>::get(k) }) }
                _ => quote!(),
            };
            out.push(quote!(impl<T: Config> Pallet<T> { #f }));
        }
    }
    // deposit_event
    if let Some((v, f)) = deposit {
        let ev = if event_generics { quote!(Event<T>) } else { quote!(Event) };
        out.push(quote!(
            impl<T: Config> Pallet<T> {
                #v fn #f(event: #ev) {
                    let event = <<T as Config>::RuntimeEvent as From<#ev>>::from(event);
                    let event = <<T as Config>::RuntimeEvent as Into<<T as ::mf::frame_system::Config>::RuntimeEvent>>::into(event);
                    ::mf::frame_system::Pallet::<T>::deposit_event(event)
                }
            }
        ));
    }
    let _ = has_event;
    let st: Vec<_> = storages.iter().map(|s| s.name.clone()).collect();
    out.push(quote!(#[doc(hidden)] pub fn mf_init<T: Config>() { #( <#st<T>>::mf_init(); )* }));
    // calls
    let mut variants: Vec<TS> = vec![];
    let mut infos: Vec<TS> = vec![];
    let mut disp: Vec<TS> = vec![];
    let mut names: Vec<TS> = vec![];
    if let Some(mut ci) = call_impl {
        ci.attrs.retain(|a| !is_pallet_attr(a));
        for ii in ci.items.iter_mut() {
            if let ImplItem::Fn(f) = ii {
                let weight: Expr = find(&f.attrs, "weight").map(|a| a.parse_args().unwrap()).unwrap_or(parse_quote!(::mf::frame_support::weights::Weight::zero()));
                let idx: TS = find(&f.attrs, "call_index").map(|a| { let l: LitInt = a.parse_args().unwrap(); quote!(#[codec(index = #l)]) }).unwrap_or(quote!());
                f.attrs.retain(|a| !is_pallet_attr(a));
                let fname = f.sig.ident.clone();
                let mut ids: Vec<Ident> = vec![]; let mut tys: Vec<Type> = vec![]; let mut fattrs: Vec<TS> = vec![];
                for a in f.sig.inputs.iter_mut().skip(1) {
                    if let FnArg::Typed(p) = a {
                        let c = find(&p.attrs, "compact").is_some();
                        p.attrs.retain(|a| !is_pallet_attr(a));
                        if let Pat::Ident(i) = &*p.pat { ids.push(i.ident.clone()); }
                        tys.push((*p.ty).clone());
                        fattrs.push(if c { quote!(#[codec(compact)]) } else { quote!() });
                    }
                }
                variants.push(quote!(#idx #fname { #(#fattrs #ids: #tys),* }));
                infos.push(quote!(Call::#fname { #(#ids),* } => { #[allow(unused)] let w = #weight; ::mf::frame_support::dispatch::IntoInfo::into_info(w) }));
                let ret_post = f.sig.output.to_token_stream().to_string().contains("PostInfo");
                let _ = ret_post;
                disp.push(quote!(Call::#fname { #(#ids),* } => ::mf::frame_support::dispatch::IntoPostResult::into_post(<Pallet<T>>::#fname(origin #(, #ids)*))));
                names.push(quote!(Call::#fname { .. } => stringify!(#fname)));
            }
        }
        out.push(ci.to_token_stream());
    }
    let call_enum: ItemEnum = parse_quote!(
        #[allow(non_camel_case_types)]
        pub enum Call<T: Config> { #(#variants,)* #[doc(hidden)] __Ignore(::core::marker::PhantomData<T>, ::mf::Never) }
    );
    let di: DeriveInput = parse_quote!(#call_enum);
    let (c, p, q, d) = (nb_impl(&di, "Clone", true), nb_impl(&di, "PartialEq", true), nb_impl(&di, "Eq", true), nb_impl(&di, "Debug", true));
    out.push(quote!(
        #[derive(::mf::Encode, ::mf::Decode, ::mf::TypeInfo)]
        #call_enum
        #c #p #q #d
        impl<T: Config> ::mf::frame_support::dispatch::GetDispatchInfo for Call<T> {
            #[allow(unused_variables, deprecated)]
            fn get_dispatch_info(&self) -> ::mf::frame_support::dispatch::DispatchInfo { match self { #(#infos)* Call::__Ignore(..) => unreachable!() } }
        }
        impl<T: Config> ::mf::frame_support::dispatch::GetCallName for Call<T> {
            fn get_call_name(&self) -> &'static str { match self { #(#names,)* Call::__Ignore(..) => unreachable!() } }
        }
        impl<T: Config> ::mf::frame_support::traits::UnfilteredDispatchable for Call<T> {
            type RuntimeOrigin = <T as ::mf::frame_system::Config>::RuntimeOrigin;
            #[allow(deprecated)]
            fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::mf::frame_support::dispatch::DispatchResultWithPostInfo {
                match self { #(#disp,)* Call::__Ignore(..) => unreachable!() }
            }
        }
    ));
    let _ = Strip;
    let p: Punctuated<Ident, Token![,]> = Punctuated::new();
    let _ = p;
    quote!(#(#mattrs)* #[allow(unused_imports, dead_code, type_alias_bounds, static_mut_refs)] #vis mod #mod_name { #(#out)* })
}

fn query(q: Option<&Type>, v: &Type) -> TS {
    match q {
        Some(t) if t.to_token_stream().to_string().contains("ValueQuery") => quote!(#v),
        _ => quote!(::core::option::Option<#v>),
    }
}

struct GetterFn(Ident);
impl syn::parse::Parse for GetterFn {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> { i.parse::<Token![fn]>()?; Ok(GetterFn(i.parse()?)) }
}
struct GetterFnVis(#[allow(dead_code)] Visibility, Ident);
impl syn::parse::Parse for GetterFnVis {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> { let v = i.parse()?; i.parse::<Token![fn]>()?; Ok(GetterFnVis(v, i.parse()?)) }
}
