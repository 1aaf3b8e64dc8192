fn main() {
    ec_go_lib::vp::main();
}
