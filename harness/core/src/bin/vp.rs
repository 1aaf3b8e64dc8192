fn main() {
    expander_compiler::vp::main()
}
