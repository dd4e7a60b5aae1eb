mod engine;
mod check;
mod refuse;
mod props;
mod c11;
mod c23;
fn main() {
    irmc::quiet();
    engine::quiet();
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(check::main(&a));
}
