//! Stand-in for the atomic_enum crate (not in the offline cache).
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn atomic_enum(_args: TokenStream, input: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = input.clone().into_iter().collect();
    let mut name = None;
    let mut vis = String::new();
    for (i, t) in toks.iter().enumerate() {
        if let TokenTree::Ident(id) = t {
            match id.to_string().as_str() {
                "pub" => vis = "pub".to_string(),
                "enum" => {
                    if let Some(TokenTree::Ident(n)) = toks.get(i + 1) { name = Some(n.to_string()); }
                    break;
                }
                _ => {}
            }
        }
    }
    let n = name.expect("atomic_enum: no enum");
    let out = format!(r#"
        #[repr(usize)] #[derive(Clone, Copy, Debug, Eq, PartialEq)] {input}
        #[allow(dead_code)]
        {vis} struct Atomic{n}(::core::sync::atomic::AtomicUsize);
        #[allow(dead_code)]
        impl Atomic{n} {{
            fn from_usize(v: usize) -> {n} {{ unsafe {{ ::core::mem::transmute::<usize, {n}>(v) }} }}
            pub const fn new(v: {n}) -> Self {{ Self(::core::sync::atomic::AtomicUsize::new(v as usize)) }}
            pub fn into_inner(self) -> {n} {{ Self::from_usize(self.0.into_inner()) }}
            pub fn load(&self, o: ::core::sync::atomic::Ordering) -> {n} {{ Self::from_usize(self.0.load(o)) }}
            pub fn store(&self, v: {n}, o: ::core::sync::atomic::Ordering) {{ self.0.store(v as usize, o) }}
            pub fn swap(&self, v: {n}, o: ::core::sync::atomic::Ordering) -> {n} {{ Self::from_usize(self.0.swap(v as usize, o)) }}
            pub fn compare_exchange(&self, c: {n}, v: {n}, s: ::core::sync::atomic::Ordering, f: ::core::sync::atomic::Ordering)
                -> ::core::result::Result<{n}, {n}> {{
                self.0.compare_exchange(c as usize, v as usize, s, f).map(Self::from_usize).map_err(Self::from_usize)
            }}
        }}
        impl ::core::fmt::Debug for Atomic{n} {{
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{
                ::core::fmt::Debug::fmt(&self.load(::core::sync::atomic::Ordering::SeqCst), f)
            }}
        }}
    "#);
    out.parse().unwrap()
}
