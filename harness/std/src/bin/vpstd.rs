fn main() {
    circuit_std_rs::vp::main()
}
