fn main() {
    nodebig::main()
}
