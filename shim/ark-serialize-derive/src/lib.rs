use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Index};

#[proc_macro_derive(CanonicalSerialize)]
pub fn derive_ser(input: TokenStream) -> TokenStream {
    let ast = parse_macro_input!(input as DeriveInput);
    let name = &ast.ident;
    let (ig, tg, wc) = ast.generics.split_for_impl();
    let accs: Vec<_> = match &ast.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => f.named.iter().map(|f| { let i = f.ident.as_ref().unwrap(); quote!(self.#i) }).collect(),
            Fields::Unnamed(f) => (0..f.unnamed.len()).map(|i| { let i = Index::from(i); quote!(self.#i) }).collect(),
            Fields::Unit => vec![],
        },
        _ => panic!("only structs"),
    };
    quote! {
        impl #ig ark_serialize::CanonicalSerialize for #name #tg #wc {
            #[allow(unused_mut, unused_variables)]
            fn serialize<W: ::std::io::Write>(&self, mut writer: W) -> Result<(), ark_serialize::SerializationError> {
                #( ark_serialize::CanonicalSerialize::serialize(&#accs, &mut writer)?; )*
                Ok(())
            }
            #[allow(unused_mut, unused_variables)]
            fn serialized_size(&self) -> usize {
                let mut size = 0;
                #( size += ark_serialize::CanonicalSerialize::serialized_size(&#accs); )*
                size
            }
            #[allow(unused_mut, unused_variables)]
            fn serialize_uncompressed<W: ::std::io::Write>(&self, mut writer: W) -> Result<(), ark_serialize::SerializationError> {
                #( ark_serialize::CanonicalSerialize::serialize_uncompressed(&#accs, &mut writer)?; )*
                Ok(())
            }
            #[allow(unused_mut, unused_variables)]
            fn serialize_unchecked<W: ::std::io::Write>(&self, mut writer: W) -> Result<(), ark_serialize::SerializationError> {
                #( ark_serialize::CanonicalSerialize::serialize_unchecked(&#accs, &mut writer)?; )*
                Ok(())
            }
            #[allow(unused_mut, unused_variables)]
            fn uncompressed_size(&self) -> usize {
                let mut size = 0;
                #( size += ark_serialize::CanonicalSerialize::uncompressed_size(&#accs); )*
                size
            }
        }
    }
    .into()
}

#[proc_macro_derive(CanonicalDeserialize)]
pub fn derive_de(input: TokenStream) -> TokenStream {
    let ast = parse_macro_input!(input as DeriveInput);
    let name = &ast.ident;
    let (ig, tg, wc) = ast.generics.split_for_impl();
    let mk = |m: proc_macro2::TokenStream| -> proc_macro2::TokenStream {
        match &ast.data {
            Data::Struct(s) => match &s.fields {
                Fields::Named(f) => {
                    let ids: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                    quote!(Ok(#name { #( #ids: ark_serialize::CanonicalDeserialize::#m(&mut reader)?, )* }))
                }
                Fields::Unnamed(f) => {
                    let c = f.unnamed.iter().map(|_| quote!(ark_serialize::CanonicalDeserialize::#m(&mut reader)?));
                    quote!(Ok(#name( #(#c,)* )))
                }
                Fields::Unit => quote!(Ok(#name)),
            },
            _ => panic!("only structs"),
        }
    };
    let (a, b, c) = (mk(quote!(deserialize)), mk(quote!(deserialize_uncompressed)), mk(quote!(deserialize_unchecked)));
    quote! {
        impl #ig ark_serialize::CanonicalDeserialize for #name #tg #wc {
            #[allow(unused_mut, unused_variables)]
            fn deserialize<R: ::std::io::Read>(mut reader: R) -> Result<Self, ark_serialize::SerializationError> { #a }
            #[allow(unused_mut, unused_variables)]
            fn deserialize_uncompressed<R: ::std::io::Read>(mut reader: R) -> Result<Self, ark_serialize::SerializationError> { #b }
            #[allow(unused_mut, unused_variables)]
            fn deserialize_unchecked<R: ::std::io::Read>(mut reader: R) -> Result<Self, ark_serialize::SerializationError> { #c }
        }
    }
    .into()
}
