fn main() {
    vt::main()
}
