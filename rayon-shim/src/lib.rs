//! A stand-in for rayon. Every scheduling decision (which piece of parallel work starts, which
//! suspended one goes on, how a reduction is split) is taken by a chooser, so that a model checker
//! can enumerate them. Without a chooser the work is done in order on the calling thread.
#![allow(clippy::all)]
pub mod iter;
pub mod mc;
pub mod slice;
mod api;

pub use api::*;

pub mod prelude {
    pub use crate::iter::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator,
        IntoParallelRefMutIterator, ParallelBridge, ParallelExtend, ParallelIterator,
    };
    pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}
