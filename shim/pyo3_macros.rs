//! Attribute macros of the stand-in `pyo3` (see README.md): `#[pyfunction]`, `#[pymodule]`
//! and a function-like `wrap_pyfunction!` lives in `pyo3.rs`.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

struct Func {
    attrs: String,       // kept attributes (without #[pyo3(..)])
    docs: Vec<String>,   // doc strings, as string-literal tokens
    name: String,
    args: Vec<(String, String)>, // name, type text
    opts: Vec<Vec<TokenTree>>,   // contents of every #[pyo3(...)]
    item: TokenStream,   // the item without pyo3 attributes
}

fn split_commas(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    let mut depth = 0i32;
    let mut prev_dash = false;
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                '<' => depth += 1,
                '>' if !prev_dash => depth -= 1,
                ',' if depth == 0 => {
                    out.push(std::mem::take(&mut cur));
                    prev_dash = false;
                    continue;
                }
                _ => {}
            }
            prev_dash = p.as_char() == '-';
        } else {
            prev_dash = false;
        }
        cur.push(t);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

fn text(v: &[TokenTree]) -> String {
    v.iter().cloned().collect::<TokenStream>().to_string()
}

fn parse(item: TokenStream) -> Func {
    let toks: Vec<TokenTree> = item.into_iter().collect();
    let mut keep: Vec<TokenTree> = vec![];
    let mut f = Func { attrs: String::new(), docs: vec![], name: String::new(), args: vec![], opts: vec![], item: TokenStream::new() };
    let mut i = 0;
    let mut seen_fn = false;
    let mut seen_args = false;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '#' && !seen_fn => {
                if let TokenTree::Group(g) = &toks[i + 1] {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let head = inner[0].to_string();
                    if head == "pyo3" {
                        if let TokenTree::Group(o) = &inner[1] {
                            for part in split_commas(o.stream()) {
                                f.opts.push(part);
                            }
                        }
                    } else {
                        if head == "doc" && inner.len() >= 3 {
                            f.docs.push(text(&inner[2..]));
                        }
                        keep.push(toks[i].clone());
                        keep.push(toks[i + 1].clone());
                        f.attrs.push_str("");
                    }
                    i += 2;
                    continue;
                }
                keep.push(toks[i].clone());
            }
            TokenTree::Ident(id) if id.to_string() == "fn" && !seen_fn => {
                seen_fn = true;
                f.name = toks[i + 1].to_string();
                keep.push(toks[i].clone());
            }
            TokenTree::Group(g) if seen_fn && !seen_args && g.delimiter() == Delimiter::Parenthesis => {
                seen_args = true;
                for a in split_commas(g.stream()) {
                    // skip attributes on the parameter
                    let mut k = 0;
                    while let TokenTree::Punct(p) = &a[k] {
                        if p.as_char() == '#' { k += 2 } else { break }
                    }
                    let colon = (k..a.len())
                        .find(|&j| matches!(&a[j], TokenTree::Punct(p) if p.as_char() == ':'))
                        .expect("parameter without a type");
                    let name = a[colon - 1].to_string();
                    f.args.push((name, text(&a[colon + 1..])));
                }
                keep.push(toks[i].clone());
            }
            _ => keep.push(toks[i].clone()),
        }
        i += 1;
    }
    f.item = keep.into_iter().collect();
    f
}

fn opt<'a>(f: &'a Func, key: &str) -> Option<&'a [TokenTree]> {
    f.opts.iter().find(|o| o[0].to_string() == key).map(|o| &o[2..])
}

#[proc_macro_attribute]
pub fn pyfunction(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse(item);
    let pyname = opt(&f, "name").map(text).unwrap_or_else(|| format!("\"{}\"", f.name));
    let text_sig = opt(&f, "text_signature").map(text).unwrap_or_else(|| {
        format!("\"({})\"", f.args.iter().filter(|a| !a.1.starts_with("Python")).map(|a| a.0.clone()).collect::<Vec<_>>().join(", "))
    });
    let mut defaults: Vec<(String, Option<String>)> = vec![];
    let has_sig = if let Some(sig) = opt(&f, "signature") {
        if let TokenTree::Group(g) = &sig[0] {
            for p in split_commas(g.stream()) {
                let n = p[0].to_string();
                let d = if p.len() > 2 { Some(text(&p[2..])) } else { None };
                defaults.push((n, d));
            }
        }
        true
    } else { false };
    let params: Vec<&(String, String)> = f.args.iter().filter(|a| !a.1.starts_with("Python")).collect();
    if !has_sig {
        defaults = params.iter().map(|p| (p.0.clone(), None)).collect();
    }
    let names = defaults.iter().map(|d| format!("\"{}\"", d.0.trim_start_matches('_'))).collect::<Vec<_>>().join(", ");
    let required = defaults.iter().map(|d| d.1.is_none().to_string()).collect::<Vec<_>>().join(", ");
    let mut binds = String::new();
    let mut call = vec![];
    for a in &f.args {
        if a.1.starts_with("Python") {
            call.push("__py".to_string());
            continue;
        }
        let idx = defaults.iter().position(|d| d.0 == a.0).expect("parameter missing from the signature");
        let var = format!("__a{idx}");
        let dflt = match &defaults[idx].1 {
            Some(d) => format!("({d})"),
            None => "unreachable!()".to_string(),
        };
        binds.push_str(&format!(
            "let {var} = match &__slots[{idx}] {{ Some(__p) => ::pyo3::impl_::extract_arg(__p, \"{}\")?, None => {dflt} }};\n",
            a.0
        ));
        call.push(var);
    }
    let docs = f.docs.join(", \"\\n\", ");
    let docs = if docs.is_empty() { "\"\"".to_string() } else { docs };
    let gen_ = format!(
        "#[doc(hidden)] #[allow(non_snake_case, unused_imports, dead_code)]\n\
         pub(crate) mod {name} {{\n use super::*;\n\
         pub unsafe extern \"C\" fn __wrap(_s: *mut ::pyo3::ffi::PyObject, args: *mut ::pyo3::ffi::PyObject, kw: *mut ::pyo3::ffi::PyObject) -> *mut ::pyo3::ffi::PyObject {{\n\
         ::pyo3::impl_::trampoline(|__py| {{\n\
         let __slots = ::pyo3::impl_::parse_args(__py, {pyname}, &[{names}], &[{required}], args, kw)?;\n\
         {binds}\n\
         ::pyo3::impl_::RetVal::ret(super::{name}({call}), __py)\n }})\n }}\n\
         pub fn __make<'py>(m: &::pyo3::Bound<'py, ::pyo3::types::PyModule>) -> ::pyo3::PyResult<::pyo3::Bound<'py, ::pyo3::types::PyCFunction>> {{\n\
         ::pyo3::impl_::make_function(m, {pyname}, {text_sig}, concat!({docs}), __wrap)\n }}\n }}",
        name = f.name,
        call = call.join(", "),
    );
    let mut out = f.item;
    out.extend(gen_.parse::<TokenStream>().expect("generated wrapper"));
    out
}

#[proc_macro_attribute]
pub fn pymodule(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse(item);
    let gen_ = format!(
        "#[unsafe(no_mangle)] #[allow(non_snake_case)] pub unsafe extern \"C\" fn PyInit_{name}() -> *mut ::pyo3::ffi::PyObject {{\n\
         ::pyo3::impl_::init_module(\"{name}\\0\", |m| {name}(m))\n }}",
        name = f.name
    );
    let mut out = f.item;
    out.extend(gen_.parse::<TokenStream>().expect("generated init"));
    out
}
