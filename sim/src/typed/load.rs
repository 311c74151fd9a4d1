//! Calls into the library under test, with results in neutral form.
use knuffel::ast::SpannedNode;
use knuffel::decode::Context;
use knuffel::errors::DecodeError;
use knuffel::span::Span;
use knuffel::traits::{Decode, DecodeChildren};
use knuffel::Error;

use super::val::{ToVal, Val};

/// Prepares the context before decoding starts.
pub type SetCtx<'a, S> = &'a mut dyn FnMut(&mut Context<S>);

pub fn list_as<T, S>(file: &str, text: &str, f: SetCtx<S>) -> Result<Val, Error>
    where T: Decode<S> + ToVal, S: knuffel::traits::Span
{
    knuffel::parse_with_context::<Vec<T>, S, _>(file, text, |c| f(c)).map(|v| v.to_val())
}
pub fn doc_as<T, S>(file: &str, text: &str, f: SetCtx<S>) -> Result<Val, Error>
    where T: DecodeChildren<S> + ToVal, S: knuffel::traits::Span
{
    knuffel::parse_with_context::<T, S, _>(file, text, |c| f(c)).map(|v| v.to_val())
}
pub fn node_as<T>(n: &SpannedNode<Span>) -> Result<Val, Vec<DecodeError<Span>>>
    where T: Decode<Span> + ToVal
{
    knuffel::decode::node::<T, Span>(n).map(|v| v.to_val())
}
