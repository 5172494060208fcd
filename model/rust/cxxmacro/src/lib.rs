//! Expands a cxx bridge so that its C++ functions record their calls.
use proc_macro::TokenStream;
use quote::{format_ident, quote, quote_spanned, ToTokens};
use syn::*;

/// Result<T> and UniquePtr<T>, or any other type.
fn wrapped(t: &Type, name: &str) -> Option<Type> {
    if let Type::Path(p) = t {
        let last = p.path.segments.last()?;
        if last.ident == name {
            if let PathArguments::AngleBracketed(a) = &last.arguments {
                if let Some(GenericArgument::Type(t)) = a.args.first() {
                    return Some(t.clone());
                }
            }
        }
    }
    None
}

fn translated(t: &Type) -> proc_macro2::TokenStream {
    if let Some(inner) = wrapped(t, "Result") {
        let inner = translated(&inner);
        return quote!(::core::result::Result<#inner, ::cxx::Exception>);
    }
    if let Some(inner) = wrapped(t, "UniquePtr") {
        return quote!(::cxx::UniquePtr<#inner>);
    }
    t.to_token_stream()
}

fn result(t: &Type) -> proc_macro2::TokenStream {
    if let Some(inner) = wrapped(t, "Result") {
        let inner = translated(&inner);
        return quote!(::cxx::private::take::<#inner>());
    }
    if let Some(inner) = wrapped(t, "UniquePtr") {
        return quote!(::cxx::UniquePtr::new(#inner { __id: ::cxx::private::fresh() }));
    }
    let t = translated(t);
    quote!(::cxx::private::take::<#t>().expect("no answer"))
}

#[proc_macro_attribute]
pub fn bridge(_args: TokenStream, input: TokenStream) -> TokenStream {
    let m = parse_macro_input!(input as ItemMod);
    let mut out = proc_macro2::TokenStream::new();
    let (name, attrs, vis) = (&m.ident, &m.attrs, &m.vis);
    let items = m.content.as_ref().map(|c| c.1.clone()).unwrap_or_default();
    for item in &items {
        match item {
            Item::Struct(s) => {
                let id = &s.ident;
                let text = id.to_string();
                let (mut derives, mut others) = (Vec::new(), Vec::new());
                for a in &s.attrs {
                    if a.path().is_ident("derive") {
                        let list = a.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated);
                        match list {
                            Ok(l) => {
                                for p in l {
                                    derives.push(match p.segments.last().map(|s| s.ident.to_string()).as_deref() {
                                        Some("Serialize") => quote!(::serde::Serialize),
                                        Some("Deserialize") => quote!(::serde::Deserialize),
                                        _ => p.to_token_stream(),
                                    });
                                }
                            }
                            Err(e) => return e.to_compile_error().into(),
                        }
                    } else {
                        others.push(a);
                    }
                }
                let fields: Vec<_> = s.fields.iter().map(|f| (f.attrs.clone(), f.ident.clone().unwrap(), f.ty.clone())).collect();
                let defs = fields.iter().map(|(a, n, t)| quote!(#(#a)* pub #n: #t));
                let values = fields.iter().map(|(_, n, _)| {
                    let text = n.to_string();
                    quote!((#text, ::cxx::ToValue::to_value(&self.#n)))
                });
                out.extend(quote_spanned! {id.span()=>
                    #(#others)*
                    #[derive(#(#derives),*)]
                    pub struct #id { #(#defs),* }
                    impl ::cxx::ToValue for #id {
                        fn to_value(&self) -> ::cxx::Value {
                            ::cxx::Value::Struct(#text, vec![#(#values),*])
                        }
                    }
                });
            }
            Item::ForeignMod(f) => {
                for item in &f.items {
                    match item {
                        ForeignItem::Macro(_) => {}
                        ForeignItem::Type(t) => {
                            let id = &t.ident;
                            out.extend(quote!(pub struct #id { #[doc(hidden)] pub __id: u64 }));
                        }
                        ForeignItem::Fn(f) => {
                            let id = &f.sig.ident;
                            let text = id.to_string();
                            let mut object = None;
                            let (mut params, mut values) = (Vec::new(), Vec::new());
                            for (i, a) in f.sig.inputs.iter().enumerate() {
                                match a {
                                    FnArg::Receiver(r) => object = Some((*r.ty).clone()),
                                    FnArg::Typed(t) => {
                                        let n = format_ident!("arg{}", i);
                                        let ty = &t.ty;
                                        params.push(quote!(#n: #ty));
                                        values.push(quote!(::cxx::ToValue::to_value(&#n)));
                                    }
                                }
                            }
                            let (ret, value) = match &f.sig.output {
                                ReturnType::Default => (quote!(), quote!()),
                                ReturnType::Type(_, t) => {
                                    let r = translated(t);
                                    (quote!(-> #r), result(t))
                                }
                            };
                            match object {
                                None => out.extend(quote! {
                                    pub fn #id(#(#params),*) #ret {
                                        ::cxx::private::record(#text, None, vec![#(#values),*]);
                                        #value
                                    }
                                }),
                                Some(ty) => {
                                    let inner = wrapped(&ty, "Pin").unwrap_or(ty.clone());
                                    let Type::Reference(r) = &inner else {
                                        return Error::new_spanned(&f.sig, "unsupported receiver").to_compile_error().into();
                                    };
                                    let class = &r.elem;
                                    let receiver = if wrapped(&ty, "Pin").is_some() {
                                        quote!(self: ::core::pin::Pin<&mut Self>)
                                    } else if r.mutability.is_some() {
                                        quote!(&mut self)
                                    } else {
                                        quote!(&self)
                                    };
                                    out.extend(quote! {
                                        impl #class {
                                            pub fn #id(#receiver, #(#params),*) #ret {
                                                ::cxx::private::record(#text, Some(self.__id), vec![#(#values),*]);
                                                #value
                                            }
                                        }
                                    });
                                }
                            }
                        }
                        other => return Error::new_spanned(other, "unsupported").to_compile_error().into(),
                    }
                }
            }
            Item::Use(u) => out.extend(u.to_token_stream()),
            other => return Error::new_spanned(other, "unsupported in a bridge").to_compile_error().into(),
        }
    }
    quote!(#(#attrs)* #[allow(clippy::all, dead_code)] #vis mod #name { #out }).into()
}
