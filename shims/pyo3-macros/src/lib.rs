//! The attribute macros of pyo3 that a binding uses, for the stand-in in ../pyo3: classes and methods
//! are registered in a table through which the harness calls them by name, as Python would.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote, ToTokens};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::*;

fn last_ident(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => last_ident(&r.elem),
        Type::Paren(p) => last_ident(&p.elem),
        Type::Group(p) => last_ident(&p.elem),
        _ => String::new(),
    }
}

fn is_ours(a: &Attribute) -> bool {
    ["pyo3", "args", "new", "getter", "setter", "staticmethod", "classmethod", "classattr", "pyfn", "text_signature"].iter().any(|n| a.path().is_ident(n))
}

/// `name = "..."` in an attribute's arguments
fn name_of(tokens: T2) -> Option<String> {
    let metas = Punctuated::<Meta, Token![,]>::parse_terminated.parse2(tokens).ok()?;
    for m in metas {
        if let Meta::NameValue(nv) = m {
            if nv.path.is_ident("name") {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = nv.value {
                    return Some(s.value());
                }
            }
        }
    }
    None
}

/// Defaults given by #[args(..)], #[pyo3(signature = (..))] or #[pyo3(text_signature..)].
fn defaults(attrs: &[Attribute]) -> Vec<(String, Expr)> {
    let mut out = vec![];
    let mut pairs = |list: Punctuated<Expr, Token![,]>| {
        for e in list {
            if let Expr::Assign(a) = e {
                let name = a.left.to_token_stream().to_string();
                let value = match &*a.right {
                    Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) if parse_str::<Expr>(&s.value()).is_ok() => parse_str::<Expr>(&s.value()).unwrap(),
                    o => o.clone(),
                };
                out.push((name, value));
            }
        }
    };
    for a in attrs {
        if a.path().is_ident("args") {
            if let Ok(l) = a.parse_args_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                pairs(l);
            }
        } else if a.path().is_ident("pyo3") {
            if let Ok(l) = a.parse_args_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                for e in l {
                    if let Expr::Assign(x) = e {
                        if x.left.to_token_stream().to_string() == "signature" {
                            match *x.right {
                                Expr::Tuple(t) => pairs(t.elems),
                                Expr::Paren(p) => pairs([*p.expr].into_iter().collect()),
                                _ => {}
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

struct Call {
    binds: T2,
    pass: Vec<T2>,
    names: Vec<String>,
}

fn args_of(inputs: &Punctuated<FnArg, Token![,]>, attrs: &[Attribute], method: bool) -> Call {
    let defs = defaults(attrs);
    let (mut binds, mut pass, mut names) = (T2::new(), vec![], vec![]);
    for (n, a) in inputs.iter().enumerate() {
        match a {
            FnArg::Receiver(r) => pass.push(if r.mutability.is_some() { quote!(__slf.get_mut::<Self>()) } else { quote!(__slf.get_ref::<Self>()) }),
            FnArg::Typed(t) => {
                let last = last_ident(&t.ty);
                if method && n == 0 && ["PyRef", "PyRefMut", "Py", "PyCell", "PyAny"].contains(&last.as_str()) {
                    pass.push(quote!(::pyo3::Receiver::receive(__slf)));
                    continue;
                }
                if last == "Python" {
                    pass.push(quote!(::pyo3::Python::assume_gil_acquired()));
                    continue;
                }
                let name = match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => format!("arg{n}"),
                };
                let v = format_ident!("__v{}", n);
                let at = names.len();
                let missing = if let Some((_, e)) = defs.iter().find(|(x, _)| *x == name) {
                    quote!(#e)
                } else if last == "Option" {
                    quote!(None)
                } else {
                    quote!(return Err(::pyo3::missing(#name)))
                };
                binds.extend(quote! {
                    let #v = match __a.get(#at) { Some(x) => ::pyo3::FromPyObject::extract(x)?, None => #missing };
                });
                pass.push(quote!(#v));
                names.push(name);
            }
        }
    }
    Call { binds, pass, names }
}

fn returns_result(o: &ReturnType) -> bool {
    match o {
        ReturnType::Default => false,
        ReturnType::Type(_, t) => matches!(last_ident(t).as_str(), "PyResult" | "Result"),
    }
}

#[proc_macro_attribute]
pub fn pyclass(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut s: ItemStruct = match parse(item) {
        Ok(s) => s,
        Err(e) => return e.to_compile_error().into(),
    };
    s.attrs.retain(|a| !is_ours(a));
    for f in s.fields.iter_mut() {
        f.attrs.retain(|a| !is_ours(a));
    }
    let id = &s.ident;
    let name = name_of(attr.into()).unwrap_or(id.to_string());
    quote! {
        #s
        impl ::pyo3::PyClass for #id { const NAME: &'static str = #name; }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pymethods(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut b: ItemImpl = match parse(item) {
        Ok(s) => s,
        Err(e) => return e.to_compile_error().into(),
    };
    let ty = b.self_ty.clone();
    let mut table = T2::new();
    for it in b.items.iter_mut() {
        if let ImplItem::Fn(f) = it {
            let has = |n: &str| f.attrs.iter().any(|a| a.path().is_ident(n));
            let (is_new, is_static) = (has("new"), has("staticmethod") || has("classmethod"));
            let id = &f.sig.ident;
            let c = args_of(&f.sig.inputs, &f.attrs, !is_new && !is_static);
            let (binds, pass, names) = (&c.binds, &c.pass, &c.names);
            let call = quote!(<#ty>::#id(#(#pass),*));
            let call = if returns_result(&f.sig.output) { quote!((#call)?) } else { call };
            let result = if is_new { quote!(::pyo3::instance::<#ty>(#call)) } else { quote!(::pyo3::IntoPy::<::pyo3::PyObject>::into_py(#call, ::pyo3::Python::assume_gil_acquired())) };
            let given = f.attrs.iter().find(|a| a.path().is_ident("pyo3")).and_then(|a| a.parse_args::<T2>().ok()).and_then(name_of);
            let name = if is_new { "__new__".to_string() } else { given.unwrap_or(id.to_string()) };
            table.extend(quote! {
                ::pyo3::Method {
                    name: #name,
                    args: &[#(#names),*],
                    call: |__slf: &::pyo3::PyAny, __a: &::pyo3::Args| -> ::pyo3::PyResult<::pyo3::PyObject> { #binds Ok(#result) },
                },
            });
            f.attrs.retain(|a| !is_ours(a));
        }
    }
    quote! {
        #b
        impl ::pyo3::PyMethods for #ty {
            #[allow(unused_variables, unreachable_code)]
            fn methods() -> Vec<::pyo3::Method> { vec![#table] }
        }
    }
    .into()
}

/// Registers functions for `wrap_pyfunction!`.
#[proc_macro_attribute]
pub fn pyfunction(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut f: ItemFn = match parse(item) {
        Ok(s) => s,
        Err(e) => return e.to_compile_error().into(),
    };
    f.attrs.retain(|a| !is_ours(a));
    quote!(#f).into()
}

#[proc_macro_attribute]
pub fn pymodule(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut f: ItemFn = match parse(item) {
        Ok(s) => s,
        Err(e) => return e.to_compile_error().into(),
    };
    f.attrs.retain(|a| !is_ours(a));
    let id = &f.sig.ident;
    let call = if f.sig.inputs.len() == 1 { quote!(#id(&m)) } else { quote!(#id(::pyo3::Python::assume_gil_acquired(), &m)) };
    quote! {
        #f
        /// The classes of the module.
        pub fn __py_module() -> ::pyo3::PyModule {
            let m = ::pyo3::PyModule::default();
            let _ = (#call).unwrap();
            m
        }
    }
    .into()
}
