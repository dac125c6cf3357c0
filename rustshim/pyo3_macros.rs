//! Stand-in for the macros of pyo3: an annotated function is compiled as it is, plus an entry point with a C interface.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

struct Sig { name: String, args: Vec<(String, String)>, extra: String, body: Vec<TokenTree> }

fn parse(item: TokenStream) -> Sig {
    // leaves out #[pyo3(...)], notes its text
    let all: Vec<TokenTree> = item.into_iter().collect();
    let mut body = Vec::new();
    let mut extra = String::new();
    let mut k = 0;
    while k < all.len() {
        if let TokenTree::Punct(p) = &all[k] {
            if p.as_char() == '#' && k + 1 < all.len() {
                if let TokenTree::Group(g) = &all[k + 1] {
                    let t = g.stream().to_string();
                    if t.starts_with("pyo3") || t.starts_with("args") || t.starts_with("signature") {
                        extra.push_str(&t);
                        k += 2;
                        continue;
                    }
                }
            }
        }
        body.push(all[k].clone());
        k += 1;
    }
    let mut name = String::new();
    let mut args = Vec::new();
    let mut i = 0;
    while i < body.len() {
        if let TokenTree::Ident(id) = &body[i] {
            if id.to_string() == "fn" { name = body[i + 1].to_string(); break; }
        }
        i += 1;
    }
    for t in &body[i..] {
        if let TokenTree::Group(g) = t {
            if g.delimiter() == Delimiter::Parenthesis { args = split(g.stream()); break; }
        }
    }
    Sig { name, args, extra, body }
}

fn split(s: TokenStream) -> Vec<(String, String)> {
    let mut out: Vec<Vec<TokenTree>> = vec![Vec::new()];
    let mut depth = 0i32;
    for t in s {
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                '<' => depth += 1,
                '>' => depth -= 1,
                ',' if depth == 0 => { out.push(Vec::new()); continue; }
                _ => {}
            }
        }
        out.last_mut().unwrap().push(t);
    }
    let mut args = Vec::new();
    for a in out {
        if a.is_empty() { continue; }
        let colon = a.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ':')).unwrap();
        let name = a[colon - 1].to_string();
        let ty: TokenStream = a[colon + 1..].iter().cloned().collect();
        args.push((name, ty.to_string().replace(' ', "")));
    }
    args
}

#[proc_macro_attribute]
pub fn pyfunction(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut s = parse(item);
    s.extra.push_str(&attr.to_string());
    let mut call = String::new();
    let mut sig = String::new();
    let mut n = 0;
    for (name, ty) in &s.args {
        let bare = ty.trim_start_matches('&').trim_start_matches("pyo3::");
        if bare.starts_with("Python<") || bare == "Python" {
            call.push_str("::pyo3::Python::stand_in(), ");
        } else {
            call.push_str(&format!("::pyo3::FromArg::from_arg(&a[{}], {:?})?, ", n, name));
            sig.push_str(&format!("{}: {}|", name, ty));
            n += 1;
        }
    }
    let code = format!(
        "#[no_mangle] pub extern \"C\" fn shimcall_{0}(args: *const ::pyo3::CArg, n: usize) -> *mut ::std::os::raw::c_char {{ \
           ::pyo3::run(args, n, {2}, |a| ::pyo3::IntoRes::into_res({0}({1}))) }} \
         #[no_mangle] pub extern \"C\" fn shimsig_{0}() -> *mut ::std::os::raw::c_char {{ ::pyo3::cstr({3:?}) }}",
        s.name, call, n, format!("{}#{}", sig, s.extra.replace('\n', " ")));
    let mut ts: TokenStream = s.body.into_iter().collect();
    ts.extend(code.parse::<TokenStream>().unwrap());
    ts
}

#[proc_macro_attribute]
pub fn pymodule(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let s = parse(item);
    let call = if s.args.len() == 2 { "::pyo3::Python::stand_in(), &m" } else { "&m" };
    let code = format!(
        "#[no_mangle] pub extern \"C\" fn shiminit() -> *mut ::std::os::raw::c_char {{ \
           let m = ::pyo3::types::PyModule::stand_in(); {}({}).expect(\"module\"); ::pyo3::cstr(&m.names()) }}", s.name, call);
    let mut ts: TokenStream = s.body.into_iter().collect();
    ts.extend(code.parse::<TokenStream>().unwrap());
    ts
}
