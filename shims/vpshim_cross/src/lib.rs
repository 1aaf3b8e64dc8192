pub use vpshim::crosslayer_impl::*;
