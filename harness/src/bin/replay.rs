fn main() {
    let a: Vec<String> = std::env::args().collect();
    mvh::sym::native::load(&a[2]);
    let f = mvh::lookup(&a[1]).expect("entry");
    f();
}
