//! Prints the queries that compare the floating-point circuits with the solver's own theory.
fn main() {
    let a: Vec<u32> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    print!("{}", symrt::bvfp::selftest(a[0], a[1]));
}
