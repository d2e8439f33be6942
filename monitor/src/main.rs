mod alloc;
mod corpus;
mod gen;
mod gram;
mod judge;
mod layout;
mod lex;
mod props;
mod rng;
mod run;
mod target;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    if std::env::args().nth(1).as_deref() != Some("run") {
        target::install_hook();
    }
    // the reference needs stack on deep texts; the code under test gets its
    // own, ordinary stack where that matters
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(|| {
            let a: Vec<String> = std::env::args().skip(1).collect();
            std::process::exit(run::main(&a));
        })
        .unwrap()
        .join()
        .unwrap();
}
