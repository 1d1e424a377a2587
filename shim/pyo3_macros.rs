//! Stand-in for pyo3's attribute macros, std only: `#[pyfunction]`, `#[pymodule]`,
//! `wrap_pyfunction!`.  Enough of the surface for hazma's crate, written against the
//! documented behaviour of pyo3 and not against how the crate happens to be spelled.
extern crate proc_macro;
use proc_macro::{Delimiter, Group, Ident, TokenStream, TokenTree};

const PFX: &str = "__verif_pyfn_";

fn is_punct(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}
fn ident_of(t: &TokenTree) -> Option<String> {
    match t {
        TokenTree::Ident(i) => Some(i.to_string()),
        _ => None,
    }
}

/// Split at top-level commas, with `<...>` counted as nesting.
fn split_commas(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    let mut depth = 0i32;
    let mut prev_dash = false;
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                '<' => depth += 1,
                '>' if !prev_dash => depth -= 1,
                ',' if depth <= 0 => {
                    out.push(std::mem::take(&mut cur));
                    prev_dash = false;
                    continue;
                }
                _ => {}
            }
            prev_dash = p.as_char() == '-' || p.as_char() == '=';
        } else {
            prev_dash = false;
        }
        cur.push(t);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

/// key = value options of `#[pyo3(...)]` / `#[pyfunction(...)]` / `#[pymodule(...)]`.
fn options(ts: TokenStream, name: &mut Option<String>, sig: &mut Option<TokenStream>, doc: &mut Option<String>) {
    for part in split_commas(ts) {
        if part.len() >= 3 && is_punct(&part[1], '=') {
            match ident_of(&part[0]).as_deref() {
                Some("name") => *name = Some(unquote(&part[2].to_string())),
                Some("signature") => {
                    if let TokenTree::Group(g) = &part[2] {
                        *sig = Some(g.stream());
                    }
                }
                Some("text_signature") => *doc = Some(unquote(&part[2].to_string())),
                _ => {}
            }
        }
    }
}
fn unquote(s: &str) -> String {
    s.trim_start_matches('r').trim_matches('#').trim_matches('"').to_string()
}

struct Func {
    body: TokenStream, // the item without pyo3 attributes
    name: String,
    params: Vec<(String, TokenStream)>,
    py_name: Option<String>,
    sig: Option<TokenStream>,
    text: Option<String>,
    doc: String,
}

fn parse(attr: TokenStream, item: TokenStream) -> Func {
    let (mut py_name, mut sig, mut text) = (None, None, None);
    options(attr, &mut py_name, &mut sig, &mut text);
    let toks: Vec<TokenTree> = item.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut doc = String::new();
    let mut i = 0;
    while i + 1 < toks.len() && is_punct(&toks[i], '#') {
        if let TokenTree::Group(g) = &toks[i + 1] {
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            let head = inner.first().and_then(ident_of);
            if head.as_deref() == Some("pyo3") {
                if let Some(TokenTree::Group(opts)) = inner.get(1) {
                    options(opts.stream(), &mut py_name, &mut sig, &mut text);
                }
            } else {
                if head.as_deref() == Some("doc") {
                    if let Some(t) = inner.get(2) {
                        doc.push_str(unquote(&t.to_string()).trim());
                        doc.push('\n');
                    }
                }
                out.push(toks[i].clone());
                out.push(toks[i + 1].clone());
            }
        }
        i += 2;
    }
    let mut name = String::new();
    let mut params = vec![];
    let mut seen_fn = false;
    let mut done = false;
    while i < toks.len() {
        let t = &toks[i];
        if !seen_fn {
            if ident_of(t).as_deref() == Some("fn") {
                seen_fn = true;
                name = toks[i + 1].to_string();
            }
            out.push(t.clone());
        } else if !done {
            match t {
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    done = true;
                    let mut clean = TokenStream::new();
                    for p in split_commas(g.stream()) {
                        // drop #[pyo3(..)] on a parameter
                        let mut k = 0;
                        while k + 1 < p.len() && is_punct(&p[k], '#') {
                            k += 2;
                        }
                        let p = &p[k..];
                        let mut n = 0;
                        if ident_of(&p[0]).as_deref() == Some("mut") {
                            n = 1;
                        }
                        params.push((p[n].to_string(), p[n + 2..].iter().cloned().collect()));
                        clean.extend(p.iter().cloned());
                        clean.extend(",".parse::<TokenStream>().unwrap());
                    }
                    out.push(TokenTree::Group(Group::new(Delimiter::Parenthesis, clean)));
                }
                _ => out.push(t.clone()),
            }
        } else {
            out.push(t.clone());
        }
        i += 1;
    }
    Func { body: out.into_iter().collect(), name, params, py_name, sig, text, doc }
}

#[proc_macro_attribute]
pub fn pyfunction(attr: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse(attr, item);
    let py_name = f.py_name.clone().unwrap_or_else(|| f.name.trim_start_matches("r#").to_string());
    // signature: name -> default
    let mut defaults: std::collections::HashMap<String, String> = Default::default();
    let mut posonly = 0usize;
    let mut kwonly: Option<usize> = None;
    if let Some(sig) = &f.sig {
        let mut n = 0;
        for part in split_commas(sig.clone()) {
            let s: String = part.iter().cloned().collect::<TokenStream>().to_string();
            if s == "/" {
                posonly = n;
                continue;
            }
            if s == "*" {
                kwonly = Some(n);
                continue;
            }
            if part.len() > 2 && is_punct(&part[1], '=') {
                defaults.insert(
                    part[0].to_string(),
                    part[2..].iter().cloned().collect::<TokenStream>().to_string(),
                );
            }
            n += 1;
        }
    }
    let mut names = vec![];
    let mut required = vec![];
    let mut call = String::new();
    let mut slot = 0;
    for (p, ty) in &f.params {
        let tys = ty.to_string().replace(' ', "");
        if tys == "Python" || tys.starts_with("Python<") || tys.contains("::Python<") {
            call.push_str("__py,");
            continue;
        }
        let pname = p.trim_start_matches("r#").to_string();
        match defaults.get(p) {
            Some(d) => call.push_str(&format!(
                "match &__slots[{slot}] {{ Some(__o) => ::pyo3::shim::from_arg(__o, \"{pname}\")?, None => {d} }},"
            )),
            None => call.push_str(&format!(
                "::pyo3::shim::from_arg(__slots[{slot}].as_ref().unwrap(), \"{pname}\")?,"
            )),
        }
        required.push(if defaults.contains_key(p) { "false" } else { "true" });
        names.push(format!("\"{pname}\""));
        slot += 1;
    }
    let kw = kwonly.map(|k| k.to_string()).unwrap_or_else(|| slot.to_string());
    let text = match &f.text {
        Some(t) => format!("{}{}\n--\n\n{}", py_name, t, f.doc),
        None => format!("{}(...)\n--\n\n{}", py_name, f.doc),
    };
    let text = text.replace('\\', "").replace('"', "'");
    let code = format!(
        "#[doc(hidden)] #[allow(non_snake_case, unused, clippy::all)]
         pub(crate) fn {PFX}{name}<'__p>(__py: ::pyo3::Python<'__p>) -> ::pyo3::PyResult<::pyo3::Bound<'__p, ::pyo3::PyAny>> {{
            unsafe extern \"C\" fn __call(_s: *mut ::pyo3::ffi::PyObject, args: *mut ::pyo3::ffi::PyObject, kwargs: *mut ::pyo3::ffi::PyObject) -> *mut ::pyo3::ffi::PyObject {{
                ::pyo3::shim::trampoline(|__py| {{
                    let __slots = ::pyo3::shim::parse_args(__py, \"{py_name}\", &[{names}], &[{required}], {posonly}, {kw}, args, kwargs)?;
                    let _ = &__slots;
                    ::pyo3::shim::Ret::ret({name}({call}), __py)
                }})
            }}
            ::pyo3::shim::make_function(__py, \"{py_name}\\0\", {text:?}, __call)
         }}",
        name = f.name,
        names = names.join(","),
        required = required.join(","),
        text = format!("{text}\0"),
    );
    let mut out = f.body;
    out.extend(code.parse::<TokenStream>().unwrap_or_else(|e| panic!("shim: {e}: {code}")));
    out
}

#[proc_macro_attribute]
pub fn pymodule(attr: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse(attr, item);
    let py_name = f.py_name.clone().unwrap_or_else(|| f.name.clone());
    let call = if f.params.len() == 2 { "__py, __m" } else { "__m" };
    let code = format!(
        "#[unsafe(no_mangle)] #[allow(non_snake_case)]
         pub unsafe extern \"C\" fn PyInit_{py_name}() -> *mut ::pyo3::ffi::PyObject {{
            ::pyo3::shim::init_module(\"{py_name}\\0\", |__py, __m| {name}({call}))
         }}",
        name = f.name
    );
    let mut out = f.body;
    out.extend(code.parse::<TokenStream>().unwrap());
    out
}

#[proc_macro]
pub fn wrap_pyfunction(ts: TokenStream) -> TokenStream {
    let parts = split_commas(ts);
    let mut path: Vec<TokenTree> = parts[0].clone();
    let last = path.pop().unwrap();
    let new = Ident::new(&format!("{PFX}{}", last), last.span());
    path.push(TokenTree::Ident(new));
    let path: TokenStream = path.into_iter().collect();
    let arg: TokenStream = if parts.len() > 1 {
        parts[1].iter().cloned().collect()
    } else {
        return "compile_error!(\"wrap_pyfunction needs a module in the shim\")".parse().unwrap();
    };
    format!("{path}(::pyo3::shim::HasPy::get_py(&{arg}))").parse().unwrap()
}
