use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};
fn kebab(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c == '_' { o.push('-') } else { if c.is_uppercase() && i > 0 { o.push('-') } o.extend(c.to_lowercase()) }
    }
    o
}
#[proc_macro_derive(ValueEnum, attributes(clap))]
pub fn value_enum(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let vs: Vec<_> = match &d.data { Data::Enum(e) => e.variants.iter().map(|v| { let (id, s) = (&v.ident, kebab(&v.ident.to_string())); quote!(#s => Some(#n::#id),) }).collect(), _ => vec![] };
    quote!(impl ::clap::ValueEnum for #n { fn named(s: &str) -> Option<Self> { match s { #(#vs)* _ => None } } }).into()
}
#[proc_macro_derive(Parser, attributes(clap))]
pub fn parser(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let (mut opts, mut shorts, mut inits) = (vec![], vec![], vec![]);
    if let Data::Struct(s) = &d.data {
        for f in &s.fields {
            let id = f.ident.as_ref().unwrap();
            let mut name = kebab(&id.to_string());
            let (mut def, mut en, mut occ) = (None::<String>, false, false);
            let ty = &f.ty;
            let tys = quote!(#ty).to_string();
            for a in &f.attrs {
                if !a.path().is_ident("clap") { continue }
                a.parse_nested_meta(|m| {
                    let k = m.path.get_ident().map(|x| x.to_string()).unwrap_or_default();
                    match k.as_str() {
                        "long" => { if m.input.peek(syn::Token![=]) { let v: syn::LitStr = m.value()?.parse()?; name = v.value() } }
                        "short" => { let c = if m.input.peek(syn::Token![=]) { let v: syn::LitChar = m.value()?.parse()?; v.value() } else { name.chars().next().unwrap() }; shorts.push((c, id.to_string())) }
                        "default_value" => { let v: syn::LitStr = m.value()?.parse()?; def = Some(v.value()) }
                        "value_enum" | "arg_enum" => en = true,
                        "parse" => { let c; syn::parenthesized!(c in m.input); let p: syn::Ident = c.parse()?; if p == "from_occurrences" { occ = true } }
                        _ => { if m.input.peek(syn::Token![=]) { let _: syn::Expr = m.value()?.parse()?; } }
                    }
                    Ok(())
                }).unwrap();
            }
            let flag = tys == "bool" || occ;
            for s in shorts.iter_mut() { if s.1 == id.to_string() { s.1 = name.clone() } }
            let takes = !flag;
            opts.push(quote!((#name, #takes)));
            let dv = match &def { Some(x) => quote!(Some(#x)), None => quote!(None) };
            inits.push(if occ { quote!(#id: r.count(#name) as _) } else if flag { quote!(#id: r.count(#name) > 0) }
                else if en { quote!(#id: ::clap::enum_arg(r.value(#name, #dv), #name)) }
                else { quote!(#id: ::clap::FromArg::from_arg(r.value(#name, #dv), #name)) });
        }
    }
    let sh = shorts.iter().map(|(c, s)| quote!((#c, #s)));
    quote!(impl ::clap::Parser for #n { fn parse() -> Self { let r = ::clap::Raw::read(&[#(#opts),*], &[#(#sh),*]); #n { #(#inits),* } } }).into()
}
