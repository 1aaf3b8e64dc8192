//! Drivers that run the code under test and record what it did (see /verif/DESIGN.md).
#[cfg(feature = "drivers")]
#[macro_use]
pub mod pipe;
#[cfg(feature = "d_bytes")]
pub mod bytes;
#[cfg(feature = "d_cuda")]
pub mod cuda;
#[cfg(feature = "d_facts")]
pub mod facts;
pub mod fields;
#[cfg(feature = "d_flat")]
pub mod flat;
#[cfg(feature = "d_front")]
pub mod front;
pub mod gen;
pub mod par;
pub mod prog;
#[cfg(feature = "d_tables")]
pub mod tables;
#[cfg(feature = "d_wit")]
pub mod wit;

#[cfg(feature = "drivers")]
pub fn main() {
    // panics of the code under test are data
    if std::env::var("VP_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
        #[cfg(feature = "d_pipe")]
        "pipe" => pipe::main(&a[1..]),
        #[cfg(feature = "d_facts")]
        "facts" => facts::main(&a[1..]),
        #[cfg(feature = "d_cuda")]
        "cuda" => cuda::main(&a[1..]),
        #[cfg(feature = "d_bytes")]
        "bytes" => bytes::main(&a[1..]),
        #[cfg(feature = "d_flat")]
        "flat" => flat::main(&a[1..]),
        #[cfg(feature = "d_front")]
        "front" => front::main(&a[1..]),
        #[cfg(feature = "d_tables")]
        "tables" => tables::main(&a[1..]),
        #[cfg(feature = "d_wit")]
        "wit" => wit::main(&a[1..]),
        x => {
            eprintln!("unknown driver {x}");
            std::process::exit(2);
        }
    }
}
