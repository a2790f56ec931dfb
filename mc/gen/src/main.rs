fn main() {
    mc_gen::stage1();
}
